// P10: recycled buffered readers and writers carry nothing over.
package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/chenquan/go-pkg/xio"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P10", scenarios) }

// source delivers data in chunks, then err.
type source struct {
	data  []byte
	chunk int
	err   error
	pos   int
	calls int
}

func (s *source) Read(p []byte) (int, error) {
	s.calls++
	if s.pos >= len(s.data) {
		return 0, s.err
	}
	n := s.chunk
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.data)-s.pos {
		n = len(s.data) - s.pos
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.pos == len(s.data) {
		return n, s.err // the reader keeps it for later
	}
	return n, nil
}

// sink records what is written; it fails after limit bytes.
type sink struct {
	got   bytes.Buffer
	limit int
	err   error
	calls int
}

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	if s.got.Len()+len(p) > s.limit {
		n := s.limit - s.got.Len()
		s.got.Write(p[:n])
		return n, s.err
	}
	return s.got.Write(p)
}

// user is one live reader or writer.
type user struct {
	n    int
	r    *bufio.Reader
	w    *bufio.Writer
	src  *source
	dst  *sink
	read int    // bytes consumed so far
	put  []byte // bytes written so far
	seen int    // calls of the stream when the object had been put back
}

func content(n, size int) []byte {
	b := make([]byte, size)
	for i := range b {
		b[i] = byte(n*37 + i)
	}
	return b
}

type world struct {
	fail func(format string, a ...any)
	n    int
	live []*user
	old  []*user // put back
}

// get obtains a reader (kind r) or writer (kind w); size 0: without a size.
func (w *world) get(kind byte, size int) *user {
	w.n++
	u := &user{n: w.n}
	if kind == 'r' {
		u.src = &source{data: content(w.n, 40+w.n), chunk: 7, err: fmt.Errorf("end of source %d", w.n)}
		if size == 0 {
			u.r = xio.GetBufferReader(u.src)
		} else {
			u.r = xio.GetBufferReaderSize(u.src, size)
		}
		if u.r.Size() < size {
			w.fail("GetBufferReaderSize(%d) returned a reader with a buffer of %d bytes", size, u.r.Size())
		}
		if u.r.Buffered() != 0 {
			w.fail("a new reader has %d buffered bytes", u.r.Buffered())
		}
	} else {
		u.dst = &sink{limit: 1 << 20, err: fmt.Errorf("sink %d is full", w.n)}
		if size == 0 {
			u.w = xio.GetBufferWriter(u.dst)
		} else {
			u.w = xio.GetBufferWriterSize(u.dst, size)
		}
		if u.w.Size() < size {
			w.fail("GetBufferWriterSize(%d) returned a writer with a buffer of %d bytes", size, u.w.Size())
		}
		if u.w.Buffered() != 0 {
			w.fail("a new writer has %d buffered bytes", u.w.Buffered())
		}
	}
	for _, l := range w.live {
		if u.r != nil && l.r == u.r || u.w != nil && l.w == u.w {
			w.fail("object handed out while user %d still has it", l.n)
		}
	}
	return u
}

// use does something that leaves state behind: bytes buffered (1), everything used (2), a sticky error (3).
func (w *world) use(u *user, how int) {
	if u.r != nil {
		switch how {
		case 1:
			w.expect(u, min(3, len(u.src.data)-u.read))
			if _, err := u.r.Peek(2); err != nil && u.read < len(u.src.data)-2 {
				w.fail("Peek: %v", err)
			}
		case 2:
			w.expect(u, len(u.src.data)-u.read)
		case 3:
			w.expect(u, len(u.src.data)-u.read)
			if c, err := u.r.ReadByte(); err != u.src.err {
				w.fail("after all bytes ReadByte returned %d, %v, want the error of source %d", c, err, u.n)
			}
		}
		return
	}
	b := content(u.n+100+len(u.put), 5)
	if how == 3 {
		u.dst.limit = u.dst.got.Len() + 2
	}
	if n, err := u.w.Write(b); (n != len(b) || err != nil) && (how != 3 || !errors.Is(err, u.dst.err)) {
		w.fail("Write: %d, %v", n, err)
	}
	u.put = append(u.put, b...)
	if how == 2 {
		if err := u.w.Flush(); err != nil {
			w.fail("Flush: %v", err)
		}
		if !bytes.Equal(u.dst.got.Bytes(), u.put) {
			w.fail("sink %d got %v after Flush, want %v", u.n, u.dst.got.Bytes(), u.put)
		}
	}
	if how == 3 {
		if err := u.w.Flush(); !errors.Is(err, u.dst.err) {
			w.fail("Flush to a full sink: %v", err)
		}
	}
}

// expect reads k bytes and compares.
func (w *world) expect(u *user, k int) {
	if k <= 0 {
		return
	}
	b := make([]byte, k)
	n, err := io.ReadFull(u.r, b)
	if err != nil || !bytes.Equal(b[:n], u.src.data[u.read:u.read+k]) {
		w.fail("reader of source %d delivered %v, %v, want %v", u.n, b[:n], err, u.src.data[u.read:u.read+k])
	}
	u.read += k
}

// finish checks that the object still works on its own stream, to the end.
func (w *world) finish(u *user) {
	if u.r != nil {
		rest, err := io.ReadAll(u.r)
		if err == nil || err != u.src.err || !bytes.Equal(rest, u.src.data[u.read:]) {
			w.fail("reader of source %d delivered %v, %v at the end, want %v", u.n, rest, err, u.src.data[u.read:])
		}
		return
	}
	if u.dst.limit < 1<<20 {
		return // its sink failed
	}
	if _, err := u.w.WriteString("tail"); err != nil {
		w.fail("writer of sink %d: %v", u.n, err)
	}
	if err := u.w.Flush(); err != nil {
		w.fail("writer of sink %d: Flush: %v", u.n, err)
	}
	want := append(append([]byte(nil), u.put...), "tail"...)
	if !bytes.Equal(u.dst.got.Bytes(), want) {
		w.fail("sink %d got %v, want %v", u.n, u.dst.got.Bytes(), want)
	}
}

func (w *world) put(u *user) {
	if u.r != nil {
		xio.PutBufferReader(u.r)
		u.seen = u.src.calls
	} else {
		xio.PutBufferWriter(u.w)
		u.seen = u.dst.calls
	}
	w.old = append(w.old, u)
}

// former checks that the streams of former users have been left alone.
func (w *world) former() {
	for _, u := range w.old {
		if u.r != nil && u.src.calls != u.seen {
			w.fail("source %d was read after its reader had been put back", u.n)
		}
		if u.w != nil && u.dst.calls != u.seen {
			w.fail("sink %d was written to after its writer had been put back", u.n)
		}
	}
}

// op: g get with size a, u use live object a in way b, p put live object a, o put an object made elsewhere with size a
type op struct {
	k    byte
	a, b int
}

func (o op) String() string { return fmt.Sprintf("%c%d.%d", o.k, o.a, o.b) }

func (w *world) do(kind byte, o op) bool {
	switch o.k {
	case 'g':
		w.live = append(w.live, w.get(kind, o.a))
	case 'o':
		if kind == 'r' {
			r := bufio.NewReaderSize(&source{data: content(90, 30), chunk: 11, err: io.EOF}, o.a)
			if o.b > 0 {
				r.ReadByte()
			}
			xio.PutBufferReader(r)
		} else {
			wr := bufio.NewWriterSize(&sink{limit: 3, err: io.ErrShortWrite}, o.a)
			wr.WriteString("left over")
			if o.b > 0 {
				wr.Flush()
			}
			xio.PutBufferWriter(wr)
		}
	case 'u':
		if o.a >= len(w.live) {
			return false
		}
		u := w.live[o.a]
		if u.dst != nil && u.dst.limit < 1<<20 {
			return false
		}
		w.use(u, o.b)
	case 'p':
		if o.a >= len(w.live) {
			return false
		}
		u := w.live[o.a]
		w.live = append(append([]*user(nil), w.live[:o.a]...), w.live[o.a+1:]...)
		w.put(u)
	}
	return true
}

func history(kind byte, ops []op, n, first int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("%c history of %d over %v, first %v", kind, n, ops, ops[first]), Bounds: []int{-1}, RaceBound: -1, Body: func(x *vrt.X) {
		w := &world{fail: x.Fail}
		for i := 0; i < n; i++ {
			k := first
			if i > 0 {
				k = x.Choose(len(ops))
			}
			if !w.do(kind, ops[k]) {
				return
			}
			x.Event("%v", ops[k])
		}
		for _, u := range w.live {
			w.finish(u)
		}
		w.former()
	}}
}

// threads: every thread gets, uses and puts; a word per thread: r R w W get (R, W with size 64), 1 2 3 use in
// that way, p put.
func threads(bounds []int, setup string, progs ...string) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("users [%s] %s", setup, strings.Join(progs, " | ")), Bounds: bounds, Body: func(x *vrt.X) {
		run := func(p string, base int) {
			w := &world{fail: x.Fail, n: base}
			for i := 0; i < len(p); i++ {
				switch c := p[i]; c {
				case 'r', 'w':
					w.live = append(w.live, w.get(c, 0))
				case 'R':
					w.live = append(w.live, w.get('r', 64))
				case 'W':
					w.live = append(w.live, w.get('w', 64))
				case 'p':
					u := w.live[len(w.live)-1]
					w.live = w.live[:len(w.live)-1]
					w.put(u)
				default:
					w.use(w.live[len(w.live)-1], int(c-'0'))
				}
				x.Step()
			}
			for _, u := range w.live {
				w.finish(u)
			}
			w.former()
		}
		run(setup, 0)
		for i, p := range progs {
			p, b := p, 20*(i+1)
			x.Go(fmt.Sprintf("user%d", i), func() { run(p, b) })
		}
		x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
	}}
}

// stackedReaders: a reader is asked for whose stream is itself a buffered reader, from the pool or made elsewhere.
func stackedReaders(own bool, setup []int, lower int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("r stacked own %v setup %v lower %d", own, setup, lower), Bounds: []int{-1}, RaceBound: -1, Body: func(x *vrt.X) {
		w := &world{fail: x.Fail}
		for _, size := range setup {
			w.do('r', op{'o', size, 1})
		}
		var u *user
		if own {
			w.n++
			u = &user{n: w.n, src: &source{data: content(w.n, 50), chunk: 7, err: fmt.Errorf("end of source %d", w.n)}}
			u.r = bufio.NewReaderSize(u.src, max(lower, 16))
		} else {
			u = w.get('r', lower)
		}
		w.live = append(w.live, u)
		w.expect(u, []int{0, 1, 9}[x.Choose(3)])
		var up *bufio.Reader
		if size := []int{0, 16, 64, 4096, 5000}[x.Choose(5)]; size == 0 {
			up = xio.GetBufferReader(u.r)
		} else {
			up = xio.GetBufferReaderSize(u.r, size)
			if up.Size() < size {
				x.Fail("reader with a buffer of %d bytes for size %d", up.Size(), size)
			}
		}
		if up == u.r {
			x.Fail("the reader to read from was handed out itself")
		}
		if up.Buffered() != 0 {
			x.Fail("a new reader has %d buffered bytes", up.Buffered())
		}
		rest := u.src.data[u.read:]
		k := []int{0, 1, 20, len(rest)}[x.Choose(4)]
		b := make([]byte, k)
		if n, err := io.ReadFull(up, b); err != nil || !bytes.Equal(b, rest[:k]) {
			x.Fail("the upper reader delivered %v, %v, want %v", b[:n], err, rest[:k])
		}
		xio.PutBufferReader(up)
		// the upper reader may have read ahead: what the lower one still has is the end of its stream
		left, err := io.ReadAll(u.r)
		if err != nil && err != u.src.err || !bytes.HasSuffix(rest[k:], left) {
			x.Fail("the lower reader then delivered %v, %v, want an end of %v", left, err, rest[k:])
		}
		w.put(u)
		w.live = w.live[:0]
		for i := 0; i < 3; i++ {
			w.live = append(w.live, w.get('r', []int{0, 16, 64}[i]))
		}
		for _, l := range w.live {
			w.finish(l)
		}
		w.former()
	}}
}

// stackedWriters: a writer is asked for whose stream is itself a buffered writer.
func stackedWriters(own bool, setup []int, lower int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("w stacked own %v setup %v lower %d", own, setup, lower), Bounds: []int{-1}, RaceBound: -1, Body: func(x *vrt.X) {
		w := &world{fail: x.Fail}
		for _, size := range setup {
			w.do('w', op{'o', size, 1})
		}
		var u *user
		if own {
			w.n++
			u = &user{n: w.n, dst: &sink{limit: 1 << 20, err: io.ErrShortWrite}}
			u.w = bufio.NewWriterSize(u.dst, max(lower, 16))
		} else {
			u = w.get('w', lower)
		}
		w.live = append(w.live, u)
		write := func(bw *bufio.Writer, n int) {
			b := content(len(u.put), n)
			u.put = append(u.put, b...)
			if _, err := bw.Write(b); err != nil {
				x.Fail("Write: %v", err)
			}
		}
		write(u.w, []int{0, 1, 20}[x.Choose(3)])
		var up *bufio.Writer
		if size := []int{0, 16, 64, 4096, 5000}[x.Choose(5)]; size == 0 {
			up = xio.GetBufferWriter(u.w)
		} else {
			up = xio.GetBufferWriterSize(u.w, size)
			if up.Size() < size {
				x.Fail("writer with a buffer of %d bytes for size %d", up.Size(), size)
			}
		}
		if up == u.w {
			x.Fail("the writer to write to was handed out itself")
		}
		if up.Buffered() != 0 {
			x.Fail("a new writer has %d buffered bytes", up.Buffered())
		}
		write(up, []int{0, 1, 20, 100}[x.Choose(4)])
		if err := up.Flush(); err != nil {
			x.Fail("Flush: %v", err)
		}
		xio.PutBufferWriter(up)
		write(u.w, 3)
		w.finish(u)
		w.put(u)
		w.live = w.live[:0]
		for i := 0; i < 3; i++ {
			w.live = append(w.live, w.get('w', []int{0, 16, 64}[i]))
		}
		for _, l := range w.live {
			w.finish(l)
		}
		w.former()
	}}
}

// std explores readers and writers over streams of the standard library that their owner goes on using.
func std(kind string, size1, size2 int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("over a %s used on its own too, sizes %d, %d", kind, size1, size2), Bounds: []int{-1}, RaceBound: -1, Body: func(x *vrt.X) {
		var all, got []byte
		more := func() []byte {
			b := content(len(all)+1, []int{0, 20}[x.Choose(2)])
			all = append(all, b...)
			return b
		}
		get := func(r io.Reader, size int) *bufio.Reader {
			if size == 0 {
				return xio.GetBufferReader(r)
			}
			return xio.GetBufferReaderSize(r, size)
		}
		getw := func(w io.Writer, size int) *bufio.Writer {
			if size == 0 {
				return xio.GetBufferWriter(w)
			}
			return xio.GetBufferWriterSize(w, size)
		}
		same := func(when string) {
			if !bytes.Equal(got, all) {
				x.Fail("%s: %v arrived, want %v", when, got, all)
			}
		}
		buf := new(bytes.Buffer)
		switch kind {
		case "bytes.Buffer", "LimitedReader over a bytes.Buffer", "bufio.Reader over a bytes.Buffer", "pooled reader over a bytes.Buffer":
			var src io.Reader = buf
			switch kind[0] {
			case 'L':
				src = &io.LimitedReader{R: buf, N: 1 << 20}
			case 'b':
				if kind != "bytes.Buffer" {
					src = bufio.NewReaderSize(buf, 64)
				}
			case 'p':
				src = xio.GetBufferReaderSize(buf, 16)
			}
			for i, size := range []int{size1, size2, size1} {
				buf.Write(more())
				r := get(src, size)
				buf.Write(more())
				for j := 0; j < 2; j++ {
					b, err := io.ReadAll(r)
					if err != nil {
						x.Fail("reader %d: %v", i+1, err)
					}
					got = append(got, b...)
					same(fmt.Sprintf("reader %d", i+1))
					if i > 0 {
						break
					}
					buf.Write(more())
				}
				xio.PutBufferReader(r)
				if len(got) < len(all) {
					b, err := io.ReadAll(src)
					if err != nil {
						x.Fail("the source after its reader was put back: %v", err)
					}
					got = append(got, b...)
					same("the source after its reader was put back")
				}
			}
		case "bytes.Reader", "strings.Reader":
			data := content(7, 50)
			var src interface {
				io.Reader
				io.Seeker
			} = bytes.NewReader(data)
			if kind[0] == 's' {
				src = strings.NewReader(string(data))
			}
			for i, size := range []int{size1, size2, size1} {
				at := []int{0, 5, 45, 50}[x.Choose(4)]
				src.Seek(int64(at), io.SeekStart)
				r := get(src, size)
				again := []int{-1, 0, 20}[x.Choose(3)]
				if again >= 0 { // nothing has been read from r yet
					src.Seek(int64(again), io.SeekStart)
					at = again
				}
				b, err := io.ReadAll(r)
				if err != nil || !bytes.Equal(b, data[at:]) {
					x.Fail("reader %d: %v, %v, want %v", i+1, b, err, data[at:])
				}
				xio.PutBufferReader(r)
			}
		default:
			var dst io.Writer = buf
			flush := func() {}
			have := func() []byte { return buf.Bytes() }
			switch kind {
			case "strings.Builder":
				b := new(strings.Builder)
				dst, have = b, func() []byte { return []byte(b.String()) }
			case "bufio.Writer over a bytes.Buffer":
				b := bufio.NewWriterSize(buf, 64)
				dst, flush = b, func() { b.Flush() }
			case "pooled writer over a bytes.Buffer":
				b := xio.GetBufferWriterSize(buf, 16)
				dst, flush = b, func() { b.Flush() }
			case "MultiWriter over a bytes.Buffer":
				dst = io.MultiWriter(buf, io.Discard)
			}
			for i, size := range []int{size1, size2, size1} {
				dst.Write(more())
				w := getw(dst, size)
				dst.Write(more())
				if k, err := w.Write(more()); err != nil {
					x.Fail("writer %d: %d, %v", i+1, k, err)
				}
				if err := w.Flush(); err != nil {
					x.Fail("writer %d: Flush: %v", i+1, err)
				}
				flush()
				got = have()
				same(fmt.Sprintf("writer %d", i+1))
				xio.PutBufferWriter(w)
			}
			dst.Write(more())
			flush()
			got = have()
			same("at the end")
		}
	}}
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	for _, kind := range []string{"bytes.Buffer", "LimitedReader over a bytes.Buffer", "bufio.Reader over a bytes.Buffer", "pooled reader over a bytes.Buffer", "bytes.Reader", "strings.Reader",
		"bytes.Buffer as a writer", "strings.Builder", "bufio.Writer over a bytes.Buffer", "pooled writer over a bytes.Buffer", "MultiWriter over a bytes.Buffer"} {
		for _, s := range [][2]int{{0, 0}, {0, 16}, {16, 0}, {16, 32}, {32, 16}, {100, 100}, {5000, 0}} {
			r = append(r, std(kind, s[0], s[1]))
		}
	}
	d := func(q, t int) int {
		if deep {
			return t
		}
		return q
	}
	for _, kind := range []byte{'r', 'w'} {
		for _, s := range []struct {
			ops []op
			n   int
		}{
			{[]op{{'g', 0, 0}, {'g', 64, 0}, {'g', 16, 0}, {'u', 0, 1}, {'u', 0, 2}, {'u', 0, 3}, {'p', 0, 0}}, d(6, 7)},
			{[]op{{'g', 0, 0}, {'g', 64, 0}, {'u', 0, 1}, {'u', 1, 1}, {'u', 1, 2}, {'p', 0, 0}, {'p', 1, 0}}, d(6, 7)},
			{[]op{{'g', 0, 0}, {'g', 17, 0}, {'g', 5000, 0}, {'u', 0, 3}, {'p', 0, 0}, {'o', 16, 0}, {'o', 64, 1}, {'o', 8192, 0}}, d(5, 6)},
		} {
			for i := range s.ops {
				r = append(r, history(kind, s.ops, s.n, i))
			}
		}
	}
	for _, own := range []bool{false, true} {
		for _, setup := range [][]int{nil, {16}, {64}, {5000}, {4096, 4096}, {16, 5000}, {64, 64, 64}} {
			for _, lower := range []int{0, 16, 64, 5000} {
				if own && lower == 0 {
					continue
				}
				r = append(r, stackedReaders(own, setup, lower), stackedWriters(own, setup, lower))
			}
		}
	}
	// many live objects, several rounds, under a delay bound
	for _, kind := range []byte{'r', 'w'} {
		for _, n := range []int{3, 9, 20} {
			for order := 0; order < 3; order++ {
				kind, n, order := kind, n, order
				b := []int{0, 1}
				if n < 9 || deep && n < 10 {
					b = []int{0, 1, 2}
				}
				r = append(r, (&vrt.Scenario{Name: fmt.Sprintf("%c %d live, put back in order %d", kind, n, order), Body: func(x *vrt.X) {
					w := &world{fail: x.Fail}
					st := x.Choose(3)
					for round := 0; round < 3; round++ {
						for i := 0; i < n; i++ {
							w.do(kind, op{'g', []int{0, 64, 16, 5000}[(i+st+round)%4], 0})
							if i%3 == 1 {
								w.do(kind, op{'u', i / 2, 1 + (i+round)%2})
							}
							if i%5 == 4 {
								w.do(kind, op{'o', []int{16, 100, 4096}[(i+st)%3], i % 2})
							}
						}
						for i := 0; len(w.live) > 0; i++ {
							at := []int{0, len(w.live) - 1, len(w.live) / 2}[order]
							if how := (i + st + round) % 4; how > 0 {
								w.do(kind, op{'u', at, how})
							}
							if i%3 == 2 {
								w.finish(w.live[at])
							}
							w.do(kind, op{'p', at, 0})
						}
						w.former()
					}
				}}).Delays(b...))
			}
		}
	}
	for _, setup := range []string{"", "r1Rpp", "w1Wpp"} {
		for _, ps := range [][]string{{"r1p", "R2p", "r3pR1p", "r1pr1", "rRp1", "r1p"}, {"w1p", "W2p", "w3pW1p", "w1pw2", "wWp2", "w1p"}, {"r1pr2pr3pr1p", "R1pR2pR1p", "r1pw1pR1p"}} {
			s := threads([]int{0, d(2, 3)}, setup, ps...).Delays(0, d(2, 3))
			s.RaceBound = 1
			r = append(r, s)
		}
	}
	words := []string{"r1p", "R2p", "r3pR1p", "r1pr1", "rRp1", "w1p", "W2p", "w3pW1p", "w1pw2", "wWp2"}
	for _, setup := range []string{"", "r1Rpp", "w1Wpp", "rpwp"} {
		for i, a := range words {
			for j, b := range words[i:] {
				if (i < 5) != (i+j < 5) {
					continue
				}
				r = append(r, threads([]int{1, -1}, setup, a, b))
			}
		}
		bd := []int{1}
		if deep {
			bd = []int{1, 2}
		}
		r = append(r, threads(bd, setup, "r1p", "R1p", "r2"), threads(bd, setup, "w1p", "W1p", "w2"))
	}

	// every pair of sizes, with the object of the first size put back
	top := d(140, 700)
	for _, kind := range []byte{'r', 'w'} {
		kind := kind
		r = append(r, vrt.EnumScenarios(fmt.Sprintf("%c sizes", kind), d(2, 8), func(c *vrt.Enum) {
			var sizes []int
			for s := 0; s <= top; s++ {
				sizes = append(sizes, s)
			}
			sizes = append(sizes, 255, 256, 257, 511, 512, 513, 1000, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537)
			for _, a := range sizes {
				for _, b := range sizes {
					if !c.Case(string(kind), "size put back", a, "size wanted", b) {
						continue
					}
					c.Fresh()
					w := &world{fail: c.Fail}
					u := w.get(kind, a)
					w.use(u, 1)
					w.put(u)
					v := w.get(kind, b)
					w.use(v, 1)
					w.finish(v)
					w.put(v)
					y := w.get(kind, 0)
					w.finish(y)
					w.former()
				}
			}
		})...)
	}
	return r
}
