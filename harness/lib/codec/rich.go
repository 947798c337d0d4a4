package codec

import (
	"bufio"
	"bytes"
	"io"
	"strings"
)

// RichReader is a Reader with the other methods readers may have.
type RichReader struct{ *Reader }

// ReadByte delivers one byte.
func (r RichReader) ReadByte() (byte, error) {
	if r.Pos == len(r.Data) {
		return 0, r.End
	}
	r.Pos++
	return r.Data[r.Pos-1], nil
}

// UnreadByte takes one byte back.
func (r RichReader) UnreadByte() error {
	r.Pos--
	return nil
}

// ReadAt reads without moving.
func (r RichReader) ReadAt(p []byte, off int64) (int, error) {
	n := 0
	if off < int64(len(r.Data)) {
		n = copy(p, r.Data[off:])
	}
	if n < len(p) {
		return n, r.End
	}
	return n, nil
}

// Seek moves.
func (r RichReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(r.Pos)
	case io.SeekEnd:
		off += int64(len(r.Data))
	}
	r.Pos = int(off)
	return off, nil
}

// WriteTo delivers all the rest.
func (r RichReader) WriteTo(w io.Writer) (int64, error) {
	n, err := w.Write(r.Data[r.Pos:])
	r.Pos += n
	if err == nil && r.End != io.EOF {
		err = r.End
	}
	return int64(n), err
}

// Len is the number of bytes left.
func (r RichReader) Len() int { return len(r.Data) - r.Pos }

// Close does nothing.
func (r RichReader) Close() error { return nil }

// RichWriter is a Writer with the other methods writers may have.
type RichWriter struct{ *Writer }

// WriteByte writes one byte.
func (w RichWriter) WriteByte(c byte) error {
	_, err := w.Write([]byte{c})
	return err
}

// WriteString writes a string.
func (w RichWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

// ReadFrom writes all that r delivers.
func (w RichWriter) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := w.Write(b)
	return int64(n), err
}

// Flush does nothing.
func (w RichWriter) Flush() error { return nil }

// Close does nothing.
func (w RichWriter) Close() error { return nil }

// Kinds of streams of RichStreams.
var Kinds = []string{"with more methods", "bytes.Buffer", "bufio", "bytes.Reader", "strings.Reader", "LimitReader", "TeeReader", "MultiReader", "SectionReader"}

// OpenWriter makes a writer of the given kind; done returns what has been written.
func OpenWriter(kind string) (w io.Writer, done func() []byte) {
	switch kind {
	case "bytes.Buffer":
		b := new(bytes.Buffer)
		return b, func() []byte { return append([]byte(nil), b.Bytes()...) }
	case "bufio":
		to := &Writer{Limit: -1}
		b := bufio.NewWriterSize(to, 16)
		return b, func() []byte { b.Flush(); return to.Got }
	case "strings.Reader":
		b := new(strings.Builder)
		return b, func() []byte { return []byte(b.String()) }
	case "MultiReader":
		to := &Writer{Limit: -1}
		return io.MultiWriter(to, io.Discard), func() []byte { return to.Got }
	}
	to := &Writer{Limit: -1}
	return RichWriter{to}, func() []byte { return to.Got }
}

// OpenReader makes a reader of the given kind that delivers data and then end (EOF only for most); left says how
// much of data is left (-1: unknown), reuse overwrites the memory of the reader.
func OpenReader(kind string, data []byte, end error) (r io.Reader, left func() int, reuse func()) {
	data = append([]byte(nil), data...)
	wipe := func() {
		for i := range data {
			data[i] = 0xEE
		}
	}
	from := &Reader{Data: data, End: end, Pick: Whole}
	unknown := func() int { return -1 }
	switch kind {
	case "bytes.Buffer":
		b := bytes.NewBuffer(data)
		return b, b.Len, func() { b.Reset(); wipe() }
	case "bufio":
		b := bufio.NewReaderSize(from, 16)
		return b, func() int { return len(data) - from.Pos + b.Buffered() }, wipe
	case "bytes.Reader":
		b := bytes.NewReader(data)
		return b, b.Len, wipe
	case "strings.Reader":
		b := strings.NewReader(string(data))
		return b, b.Len, wipe
	case "LimitReader":
		b := &io.LimitedReader{R: from, N: int64(len(data))}
		return b, func() int { return int(b.N) }, wipe
	case "TeeReader":
		return io.TeeReader(from, io.Discard), func() int { return len(data) - from.Pos }, wipe
	case "MultiReader":
		k := len(data) / 2
		return io.MultiReader(bytes.NewReader(data[:k]), &Reader{Data: data[k:], End: end, Pick: Whole}), unknown, wipe
	case "SectionReader":
		b := io.NewSectionReader(bytes.NewReader(append([]byte{1, 2, 3}, append(data, 4, 5)...)), 3, int64(len(data)))
		return b, func() int { n, _ := b.Seek(0, io.SeekCurrent); return len(data) - int(n) }, wipe
	}
	return RichReader{from}, func() int { return len(data) - from.Pos }, wipe
}
