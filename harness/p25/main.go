// P25: the binary codec never turns a fault into a value.
package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/chenquan/go-pkg/zverif/h/lib/codec"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P25", scenarios) }

type value = codec.Value

func b(n uint32) value { return value{Kind: 'b', N: n} }
func u(n uint32) value { return value{Kind: '2', N: n} }
func l(n uint32) value { return value{Kind: '4', N: n} }

// no byte of these is zero or equal to another, so that a wrong value shows
var menu = []value{b(1), u(0x0102), l(0x01020304), codec.Str(0, 1), codec.Str(1, 2), codec.Str(3, 100)}

var errReader = errors.New("the reader's own error")
var errWriter = errors.New("the writer's own error")

type fault struct{ who string }

func (f *fault) Error() string   { return f.who }
func (f *fault) Timeout() bool   { return true }
func (f *fault) Temporary() bool { return true }

// check judges the result of reading a value of which only n bytes were there before end.
func check(fail func(string, ...any), v value, got value, err error, n int, end error) {
	if !got.Zero() {
		fail("reading %v of which %d bytes are there returned the value %v (error %v)", v, n, got, err)
	}
	switch {
	case err == nil:
		fail("reading %v of which %d bytes are there returned no error", v, n)
	case end != io.EOF && err != end:
		fail("reading %v of which %d bytes are there returned error %v, want the reader's error %v", v, n, err, end)
	case end == io.EOF && n == 0 && err != io.EOF:
		fail("reading %v at the end of the stream returned error %v, want EOF", v, err)
	case end == io.EOF && n > 0 && errors.Is(err, io.EOF):
		fail("reading %v of which %d bytes are there returned EOF", v, n)
	}
}

// intact checks that the codec still works for another user.
func intact(fail func(string, ...any), vals []value) {
	w := &codec.Writer{Limit: -1}
	for _, v := range vals {
		if err := v.Write(w); err != nil {
			fail("after the fault: writing %v returned %v", v, err)
		}
	}
	r := &codec.Reader{Data: w.Got, End: io.EOF, Pick: codec.Whole}
	var all []value
	for _, v := range vals {
		got, err := codec.Read(v.Kind, r)
		if err != nil || !got.Equal(v) {
			fail("after the fault: got %v, %v, want %v", got, err, v)
		}
		all = append(all, got)
	}
	for i, v := range vals {
		if !all[i].Equal(v) {
			fail("after the fault: the value read as %v changed to %v", v, all[i])
		}
	}
}

// after are values of another user that need buffers like the one of v.
func after(v value) []value {
	if v.Kind == 's' {
		return []value{codec.Str(len(v.S), 50), codec.Str(len(v.S), 90)}
	}
	return []value{{Kind: v.Kind, N: 0}, {Kind: v.Kind, N: 1}}
}

// reading enumerates every cut of a sequence of n values and every chunking.
func reading(first, n, empties int, end error) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("reading %d values starting with %v cut anywhere by %v, all chunkings, %d empty reads", n, menu[first], end, empties), Enum: func(c *vrt.Enum) {
		var script codec.Script
		for script.Next() {
			var log []int
			vals := []value{menu[first]}
			for i := 1; i < n; i++ {
				vals = append(vals, menu[script.Choose(len(menu))])
			}
			size := 0
			for _, v := range vals {
				size += len(v.Encoding())
			}
			cut, together := script.Choose(size), script.Choose(2) == 1
			c.Case(fmt.Sprint(vals), cut, together, &log)
			cutRead(c.Fail, vals, cut, together, end, codec.Picker(script.Choose, empties, together, &log))
		}
	}}
}

// pools explores every choice of the buffer pools around a fault.
func pools(v value, end error, together bool) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("reading %v cut anywhere by %v %v, all pool choices", v, end, together), Bounds: []int{-1}, RaceBound: -1, Body: func(x *vrt.X) {
		cut := x.Choose(len(v.Encoding()))
		cutRead(x.Fail, []value{v}, cut, together, end, func(n int) (int, bool) { return n, together })
	}}
}

func cutRead(fail func(string, ...any), vals []value, cut int, together bool, end error, pick func(int) (int, bool)) {
	var data []byte
	for _, v := range vals {
		data = append(data, v.Encoding()...)
	}
	r := &codec.Reader{Data: data[:cut], End: end, Pick: pick}
	pos := 0
	for _, v := range vals {
		size := len(v.Encoding())
		got, err := codec.Read(v.Kind, r)
		if pos+size > cut {
			check(fail, v, got, err, cut-pos, end)
			break
		}
		pos += size
		if err != nil && pos == cut && together && end != io.EOF && err == end && got.Zero() {
			break // the error came with the last byte
		}
		if err != nil || !got.Equal(v) {
			fail("got %v, %v, want %v", got, err, v)
		}
	}
	intact(fail, after(vals[len(vals)-1]))
}

// writing explores a writer that fails after any number of bytes.
func writing(first, n int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("writing %d values starting with %v to a writer that fails anywhere", n, menu[first]), Bounds: []int{-1}, RaceBound: -1, Body: func(x *vrt.X) {
		vals := []value{menu[first]}
		for i := 1; i < n; i++ {
			vals = append(vals, menu[x.Choose(len(menu))])
		}
		x.Note("values %v", vals)
		var data []byte
		for _, v := range vals {
			data = append(data, v.Encoding()...)
		}
		w := &codec.Writer{Limit: x.Choose(len(data)), Err: &fault{"the writer's own error"}}
		x.Note("the writer fails after %d bytes", w.Limit)
		pos := 0
		for _, v := range vals {
			err := v.Write(w)
			pos += len(v.Encoding())
			if pos > w.Limit {
				if err != w.Err {
					x.Fail("writing %v to a writer that fails at byte %d of it returned %v", v, w.Limit-pos+len(v.Encoding()), err)
				}
				break
			}
			if err != nil {
				x.Fail("writing %v returned %v", v, err)
			}
		}
		if w.Failed > 1 {
			x.Fail("the writer was called %d times after it had failed", w.Failed-1)
		}
		if !bytes.Equal(w.Got, data[:w.Limit]) {
			x.Fail("%v was written, want %v", w.Got, data[:w.Limit])
		}
		intact(x.Fail, after(vals[len(vals)-1]))
	}}
}

// together explores a user with a failing stream next to one with a good stream.
func together(bounds []int, bad value, cut int, good ...value) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("%v cut at %d next to %v", bad, cut, good), Bounds: bounds, Body: func(x *vrt.X) {
		x.Go("failing reader", func() {
			r := &codec.Reader{Data: bad.Encoding()[:cut], End: errReader, Pick: codec.Whole}
			got, err := codec.Read(bad.Kind, r)
			check(x.Fail, bad, got, err, cut, errReader)
		})
		x.Go("failing writer", func() {
			w := &codec.Writer{Limit: cut, Err: errWriter}
			if err := bad.Write(w); err != errWriter {
				x.Fail("writing to a failing writer returned %v", err)
			}
		})
		x.Go("good user", func() {
			intact(x.Fail, good)
		})
		x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
	}}
}

// streams checks pairs of values over every kind of stream, cut anywhere, and over writers that fail anywhere.
func streams(c *vrt.Enum) {
	all := append(append([]value(nil), menu...), codec.Str(12, 7), codec.Str(15, 7), codec.Str(16, 7), codec.Str(40, 7), codec.Str(100, 3))
	for _, a := range all {
		for _, z := range all {
			vals := []value{a, z}
			var enc []byte
			for _, v := range vals {
				enc = append(enc, v.Encoding()...)
			}
			for cut := 0; cut < len(enc); cut++ {
				for _, kind := range codec.Kinds {
					for _, end := range []error{io.EOF, errReader} {
						switch kind {
						case "bytes.Buffer", "bytes.Reader", "strings.Reader", "SectionReader", "LimitReader":
							if end != io.EOF {
								continue // they know no other end
							}
						}
						if !c.Case("reading", fmt.Sprint(vals), cut, kind, end) {
							continue
						}
						r, _, _ := codec.OpenReader(kind, enc[:cut], end)
						pos := 0
						for _, v := range vals {
							got, err := codec.Read(v.Kind, r)
							c.Eval()
							if size := len(v.Encoding()); pos+size > cut {
								check(c.Fail, v, got, err, cut-pos, end)
								break
							} else if err != nil || !got.Equal(v) {
								c.Fail("got %v, %v, want %v", got, err, v)
							} else {
								pos += size
							}
						}
						intact(c.Fail, after(a))
					}
				}
				for _, kind := range []string{"with more methods", "bufio", "bufio over one with more methods", "MultiWriter"} {
					if !c.Case("writing", fmt.Sprint(vals), cut, kind) {
						continue
					}
					to := &codec.Writer{Limit: cut, Err: &fault{"the writer's own error"}}
					var w io.Writer
					switch kind {
					case "with more methods":
						w = codec.RichWriter{Writer: to}
					case "bufio":
						w = bufio.NewWriterSize(to, 16)
					case "bufio over one with more methods":
						w = bufio.NewWriterSize(codec.RichWriter{Writer: to}, 16)
					case "MultiWriter":
						w = io.MultiWriter(io.Discard, to)
					}
					failed := false
					for _, v := range vals {
						err := v.Write(w)
						c.Eval()
						if failed = to.Failed > 0; failed != (err != nil) || failed && err != to.Err {
							c.Fail("writing %v to a writer that failed (%v) returned %v", v, failed, err)
						}
						if failed {
							break
						}
					}
					if to.Failed > 1 {
						c.Fail("the writer was called %d times after it had failed", to.Failed-1)
					}
					if !bytes.HasPrefix(enc, to.Got) || failed && len(to.Got) != cut {
						c.Fail("%v was written, want the first %d bytes of %v", to.Got, cut, enc)
					}
					intact(c.Fail, after(z))
				}
			}
		}
	}
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	r = append(r, vrt.EnumScenarios("every kind of stream", 4, streams)...)
	for _, end := range []error{io.EOF, errReader, &fault{"a timeout"}} {
		for i := range menu {
			r = append(r, reading(i, 1, 4, end), reading(i, 2, 2, end), reading(i, 3, 0, end), pools(menu[i], end, false), pools(menu[i], end, true))
			if deep {
				r = append(r, reading(i, 3, 2, end), reading(i, 4, 0, end))
			}
		}
	}
	for i := range menu {
		r = append(r, writing(i, 1), writing(i, 2))
		if deep {
			r = append(r, writing(i, 3))
		}
	}
	bs := []int{0, 1}
	if deep {
		bs = []int{0, 1, 2}
	}
	r = append(r, together(bs, u(0x0102), 1, u(0xFFFE)), together(bs, codec.Str(2, 5), 3, codec.Str(2, 50)), together(bs, codec.Str(2, 5), 1, u(7)), together(bs, l(0x01020304), 3, l(1)), together(bs, b(1), 0, b(1)))
	r = append(r, &vrt.Scenario{Name: "byte strings longer than the length field can say", Enum: func(c *vrt.Enum) {
		for _, n := range []int{65536, 65537, 65538, 65791, 65792, 70000, 98304, 131070, 131071, 131072, 131073, 196608, 1 << 20} {
			for _, limit := range []int{-1, 0, 1, 2, 100, 65535} {
				if !c.Case(n, limit) {
					continue
				}
				w := &codec.Writer{Limit: limit, Err: errWriter}
				if err := codec.Str(n, 1).Write(w); err == nil {
					c.Fail("no error")
				}
				if len(w.Got) > 0 {
					c.Fail("%d bytes were written", len(w.Got))
				}
				intact(c.Fail, []value{codec.Str(2, 4), u(5)})
			}
		}
	}})
	r = append(r, &vrt.Scenario{Name: "long byte strings cut anywhere", Enum: func(c *vrt.Enum) {
		for _, n := range []int{4, 5, 7, 16, 255, 256, 257, 1000, 4096, 65535} {
			v := codec.Str(n, 3)
			enc := v.Encoding()
			for cut := 0; cut < len(enc); cut++ {
				if n > 1000 && cut > 40 && cut < len(enc)-40 && cut%511 != 0 {
					continue
				}
				for _, end := range []error{io.EOF, errReader} {
					if !c.Case(n, cut, end) {
						continue
					}
					for _, pick := range []func(int) (int, bool){codec.Whole, func(n int) (int, bool) { return n, true }, func(n int) (int, bool) { return n/2 + n%2, true }} {
						got, err := codec.Read('s', &codec.Reader{Data: enc[:cut], End: end, Pick: pick})
						check(c.Fail, v, got, err, cut, end)
					}
					w := &codec.Writer{Limit: cut, Err: errWriter}
					if err := v.Write(w); err != errWriter || w.Failed != 1 || !bytes.Equal(w.Got, enc[:cut]) {
						c.Fail("a writer that fails after %d bytes: error %v, %d bytes written, called %d times after failing", cut, err, len(w.Got), w.Failed-1)
					}
				}
			}
		}
	}})
	return r
}
