// Package codec drives the binary codec with readers and writers that do all that the io contracts allow.
package codec

import (
	"bytes"
	"fmt"
	"io"

	"github.com/chenquan/go-pkg/xbinary"
)

// Value is a value with its kind: b bool, 2 uint16, 4 uint32, s byte string.
type Value struct {
	Kind byte
	N    uint32
	S    []byte
}

func (v Value) String() string {
	if v.Kind == 's' {
		if len(v.S) > 8 {
			return fmt.Sprintf("string of %d bytes", len(v.S))
		}
		if v.S == nil {
			return "nil string"
		}
		return fmt.Sprintf("string %v", v.S)
	}
	return fmt.Sprintf("%c:%d", v.Kind, v.N)
}

// Encoding is what the format says.
func (v Value) Encoding() []byte {
	switch v.Kind {
	case 'b':
		return []byte{byte(v.N)}
	case '2':
		return []byte{byte(v.N >> 8), byte(v.N)}
	case '4':
		return []byte{byte(v.N >> 24), byte(v.N >> 16), byte(v.N >> 8), byte(v.N)}
	}
	n := len(v.S)
	return append([]byte{byte(n >> 8), byte(n)}, v.S...)
}

// Write calls the Write function of the kind.
func (v Value) Write(w io.Writer) error {
	switch v.Kind {
	case 'b':
		return xbinary.WriteBool(w, v.N == 1)
	case '2':
		return xbinary.WriteUint16(w, uint16(v.N))
	case '4':
		return xbinary.WriteUint32(w, v.N)
	}
	return xbinary.WriteBytes(w, v.S)
}

// Read calls the Read function of the kind.
func Read(kind byte, r io.Reader) (Value, error) {
	switch kind {
	case 'b':
		b, err := xbinary.ReadBool(r)
		if b {
			return Value{'b', 1, nil}, err
		}
		return Value{'b', 0, nil}, err
	case '2':
		n, err := xbinary.ReadUint16(r)
		return Value{'2', uint32(n), nil}, err
	case '4':
		n, err := xbinary.ReadUint32(r)
		return Value{'4', n, nil}, err
	}
	s, err := xbinary.ReadBytes(r)
	return Value{'s', 0, s}, err
}

// Equal compares values; a nil byte string is an empty one.
func (v Value) Equal(w Value) bool {
	return v.Kind == w.Kind && v.N == w.N && bytes.Equal(v.S, w.S)
}

// Zero reports whether v is the zero value that goes with an error.
func (v Value) Zero() bool { return v.N == 0 && v.S == nil }

// Reader delivers Data and then End. Pick chooses, for a buffer of n bytes with left bytes remaining, how
// many to deliver (-1: an empty read) and whether to return End together with the last byte.
type Reader struct {
	Data  []byte
	End   error
	Pos   int
	Reads int
	Pick  func(n int) (k int, end bool)
}

func (r *Reader) Read(p []byte) (int, error) {
	r.Reads++
	for i := range p { // a reader may use all of p as scratch space
		p[i] = 0xA5
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := min(len(p), len(r.Data)-r.Pos)
	if n == 0 {
		return 0, r.End
	}
	k, end := r.Pick(n)
	if k < 0 {
		return 0, nil
	}
	copy(p, r.Data[r.Pos:r.Pos+k])
	r.Pos += k
	if end && r.Pos == len(r.Data) {
		return k, r.End
	}
	return k, nil
}

// Whole picks as much as possible.
func Whole(n int) (int, bool) { return n, false }

// Bytewise picks single bytes.
func Bytewise(int) (int, bool) { return 1, false }

// Writer takes Limit bytes and then fails with Err; a negative limit is none.
type Writer struct {
	Got    []byte
	Limit  int
	Err    error
	Failed int // writes after the failure
}

func (w *Writer) Write(p []byte) (int, error) {
	if w.Failed > 0 {
		w.Failed++
		return 0, w.Err
	}
	if w.Limit >= 0 && len(w.Got)+len(p) > w.Limit {
		n := w.Limit - len(w.Got)
		w.Got = append(w.Got, p[:n]...)
		w.Failed = 1
		return n, w.Err
	}
	w.Got = append(w.Got, p...)
	return len(p), nil
}

// Str makes a byte string of n bytes.
func Str(n int, seed byte) Value {
	s := make([]byte, n)
	for i := range s {
		s[i] = seed + byte(i*7) + byte(i>>8)
	}
	return Value{'s', 0, s}
}

// Script enumerates sequences of choices: run it in a loop until Next is false.
type Script struct {
	vals, sizes []int
	pos         int
	started     bool
}

// Next moves to the next sequence.
func (s *Script) Next() bool {
	s.pos = 0
	if !s.started {
		s.started = true
		return true
	}
	for n := len(s.vals); n > 0; n = len(s.vals) {
		if s.vals[n-1]+1 < s.sizes[n-1] {
			s.vals[n-1]++
			return true
		}
		s.vals, s.sizes = s.vals[:n-1], s.sizes[:n-1]
	}
	return false
}

// Choose is the next choice among n.
func (s *Script) Choose(n int) int {
	if s.pos == len(s.vals) {
		s.vals, s.sizes = append(s.vals, 0), append(s.sizes, n)
	}
	s.pos++
	return s.vals[s.pos-1]
}

// Picker chooses chunk sizes and up to empties empty reads by the script; together: the end comes with the
// last byte. The picks are added to log.
func Picker(choose func(n int) int, empties int, together bool, log *[]int) func(int) (int, bool) {
	return func(m int) (int, bool) {
		c := m
		if empties > 0 {
			c++
		}
		k := choose(c)
		if k == m {
			empties--
			*log = append(*log, 0)
			return -1, false
		}
		*log = append(*log, m-k)
		return m - k, together
	}
}
