// P21: Concat and Copy deliver every element of every stream.
package main

import (
	"errors"
	"fmt"
	"sort"

	"github.com/chenquan/go-pkg/xstream"
	"github.com/chenquan/go-pkg/zverif/h/lib/streams"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P21", scenarios) }

const M = 50 // more than the elements of any stream

// elems are the elements of stream i of n: M*i, M*i+1, ....
func elems(i, n int) (r []any) {
	for j := 0; j < n; j++ {
		r = append(r, M*i+j)
	}
	return
}

// concat explores Concat of streams with the given lengths. shape: m method, f function, n nested
// to the left, r nested to the right; end: c Chan, n Count, 2 two consumers, i idle consumer at first.
func concat(src []int, lens []int, shape, end byte, bounds ...int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("Concat sources %v lengths %v shape %c end %c", src, lens, shape, end), Bounds: bounds, Body: func(x *vrt.X) {
		k := x.Choose(len(src))
		var ss []*xstream.Stream
		total := 0
		// register i: elements of stream i delivered; 100: elements delivered; 130+i: stream i has ended
		for i, n := range lens {
			i := i
			total += n
			in := elems(i, n)
			if src[k] == 9 { // a generator that says when it has ended
				ss = append(ss, xstream.From(func(c chan<- any) {
					for _, v := range in {
						c <- v
					}
					x.Step()
					x.SetReg(130+i, 1)
				}))
			} else {
				ss = append(ss, streams.Source(x, src[k], in))
			}
		}
		var st *xstream.Stream
		switch shape {
		case 'm':
			st = ss[0].Concat(ss[1:]...)
		case 'f':
			st = xstream.Concat(ss[0], ss[1:]...)
		case 'n':
			st = ss[0]
			for _, s := range ss[1:] {
				st = st.Concat(s)
			}
		case 'r':
			st = ss[len(ss)-1]
			for i := len(ss) - 2; i >= 0; i-- {
				st = xstream.Concat(ss[i], st)
			}
		}
		ordered := end != '2'
		see := func(v any) {
			x.Note("got %v", v)
			n, ok := v.(int)
			if !ok || n < 0 || n/M >= len(lens) || n%M >= lens[n/M] {
				x.Fail("got %v, which no stream has", v)
			}
			i := n / M
			if ordered {
				if x.Reg(i) != n%M {
					x.Fail("got element %d of stream %d after %d of its elements", n%M, i, x.Reg(i))
				}
				x.SetReg(i, x.Reg(i)+1)
			} else {
				if x.Reg(i)>>(n%M)&1 == 1 {
					x.Fail("got element %d of stream %d twice", n%M, i)
				}
				x.SetReg(i, x.Reg(i)|1<<(n%M))
			}
			x.SetReg(100, x.Reg(100)+1)
		}
		closed := func() {
			if n := x.Reg(100); n != total {
				x.Fail("the stream closed after %d elements, want %d", n, total)
			}
			if src[k] == 9 {
				for i := range lens {
					if x.Reg(130+i) == 0 {
						x.Fail("the stream closed before stream %d ended", i)
					}
				}
			}
		}
		switch end {
		case 'c':
			for v := range st.Chan() {
				see(v)
			}
			closed()
		case 'n':
			if n := st.Count(); n != total {
				x.Fail("Count returned %d, want %d", n, total)
			}
			x.SetReg(100, total)
			closed()
		case '2':
			for i := 0; i < 2; i++ {
				x.Go(fmt.Sprint("consumer ", i+1), func() { st.Foreach(see) })
			}
			x.Wait()
			closed()
		case 'i':
			x.Quiesce()
			for v := range st.Chan() {
				see(v)
			}
			closed()
		}
		x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
	}}
}

// copies explores Copy of one stream into named copies with the given buffers. how: c one thread per
// copy, s one after the other where the buffers allow it, p each copy through a Map stage.
func copies(src []int, items []any, bufs []int, how byte, bounds ...int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("Copy sources %v of %v buffers %v %c", src, items, bufs, how), Bounds: bounds, Body: func(x *vrt.X) {
		k := x.Choose(len(src))
		st := streams.Source(x, src[k], items)
		param := map[string]int{}
		var names []string
		for i, b := range bufs {
			name := fmt.Sprint("copy", i+1)
			if i == 0 {
				name = ""
			}
			param[name] = b
			names = append(names, name)
		}
		m := st.Copy(param)
		if len(m) != len(bufs) {
			x.Fail("Copy returned %d streams, want %d", len(m), len(bufs))
		}
		for i, name := range names {
			s, ok := m[name]
			if !ok || s == nil {
				x.Fail("Copy returned no stream named %q", name)
			}
			if c := cap(s.Chan()); c != bufs[i] {
				x.Fail("copy %q has a buffer of %d, want %d", name, c, bufs[i])
			}
		}
		consume := func(i int) {
			s := m[names[i]]
			if how == 'p' {
				s = s.Map(func(item any) any { return item }, xstream.WithWorkSize(1))
			}
			for v := range s.Chan() {
				x.Note("copy %q gets %v", names[i], v)
				n := x.Reg(i)
				if n >= len(items) || !streams.Same(v, items[n]) {
					x.Fail("copy %q gets %v as element %d of %v", names[i], v, n+1, items)
				}
				x.SetReg(i, n+1)
			}
			if n := x.Reg(i); n != len(items) {
				x.Fail("copy %q closed after %d elements of %v", names[i], n, items)
			}
		}
		if how == 's' { // the smaller buffers first, as they are the ones that can hold the others up
			ord := make([]int, len(bufs))
			for i := range ord {
				ord[i] = i
			}
			sort.Slice(ord, func(a, b int) bool { return bufs[ord[a]] < bufs[ord[b]] })
			for _, i := range ord {
				consume(i)
			}
		} else {
			for i := range bufs {
				i := i
				x.Go(fmt.Sprintf("consumer of %q", names[i]), func() { consume(i) })
			}
		}
		x.Wait()
		x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
	}}
}

// manyStreams explores Concat of n streams of k elements each, one schedule per way of counting delays.
func manyStreams(src, n, k int, how byte, bounds ...int) *vrt.Scenario {
	s := &vrt.Scenario{Name: fmt.Sprintf("Concat of %d streams of %d elements source %d %c", n, k, src, how), Horizon: 50 * n * k, Body: func(x *vrt.X) {
		x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
		var ss []*xstream.Stream
		for i := 0; i < n; i++ {
			var in []any
			for j := 0; j < k; j++ {
				in = append(in, i*k+j)
			}
			ss = append(ss, streams.Source(x, src, in))
		}
		var st *xstream.Stream
		if how == 'm' {
			st = ss[0].Concat(ss[1:]...)
		} else {
			st = xstream.Concat(ss[0], ss[1:]...)
		}
		next := make([]int, n)
		total := 0
		for v := range st.Chan() {
			i := v.(int) / k
			if i >= n || v.(int)%k != next[i] {
				x.Fail("got %v after %d elements of stream %d", v, next[i], i)
			}
			next[i]++
			total++
		}
		if total != n*k {
			x.Fail("the stream closed after %d elements, want %d", total, n*k)
		}
	}}
	return s.Delays(bounds...)
}

// manyCopies explores Copy of n elements into copies with the given buffers.
func manyCopies(src, n int, bufs []int, bounds ...int) *vrt.Scenario {
	name := fmt.Sprintf("Copy of %d elements source %d into %d copies", n, src, len(bufs))
	if len(bufs) < 9 {
		name += fmt.Sprint(" buffers ", bufs)
	} else {
		name += fmt.Sprint(" buffers ", bufs[:3], "...")
	}
	s := &vrt.Scenario{Name: name, Horizon: 50 * n * len(bufs), Body: func(x *vrt.X) {
		x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
		var in []any
		for j := 0; j < n; j++ {
			in = append(in, j)
		}
		st := streams.Source(x, src, in)
		param := map[string]int{}
		for i, b := range bufs {
			param[fmt.Sprint(i)] = b
		}
		m := st.Copy(param)
		if len(m) != len(bufs) {
			x.Fail("Copy returned %d streams, want %d", len(m), len(bufs))
		}
		for i, b := range bufs {
			s, ok := m[fmt.Sprint(i)]
			if !ok || s == nil || cap(s.Chan()) != b {
				x.Fail("copy %d: %v, want a stream with a buffer of %d", i, s, b)
			}
			i := i
			x.Go(fmt.Sprint("consumer ", i), func() {
				k := 0
				for v := range s.Chan() {
					if v != k {
						x.Fail("copy %d gets %v as element %d", i, v, k)
					}
					k++
				}
				if k != n {
					x.Fail("copy %d closed after %d elements, want %d", i, k, n)
				}
			})
		}
	}}
	s.MapOrders = 1
	return s.Delays(bounds...)
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	b := func(bs ...int) []int {
		bs = append(bs, bs[len(bs)-1]+1)
		if deep {
			bs = append(bs, bs[len(bs)-1]+1, -1)
		}
		return bs
	}
	all := []int{9, 0, 2, 3}
	for _, l := range [][]int{{0}, {1}, {3}, {0, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 0}, {1, 2}, {2, 1}} {
		for _, sh := range "mf" {
			r = append(r, concat(all, l, byte(sh), 'c', b(0, 1, 2)...))
		}
		r = append(r, concat([]int{9}, l, 'm', 'i', b(0, 1)...), concat([]int{9, 3}, l, 'm', 'n', b(0, 1)...))
	}
	for _, l := range [][]int{{2, 2}, {3, 1}, {1, 3}, {0, 1, 1}, {1, 1, 1}, {2, 0, 1}, {0, 0, 2}} {
		r = append(r, concat([]int{9, 0}, l, 'm', 'c', b(0, 1)...), concat([]int{9}, l, 'm', '2', b(0)...))
		r = append(r, concat([]int{2}, l, 'f', 'c', b(0, 1)...))
	}
	for _, l := range [][]int{{1, 2, 1}, {2, 1, 2}, {1, 1, 1, 1}} {
		r = append(r, concat([]int{9}, l, 'm', 'c', b(0)...), concat([]int{2}, l, 'm', 'c', b(0)...))
	}
	for _, l := range [][]int{{1, 1, 1}, {0, 2, 1}} {
		r = append(r, concat([]int{9}, l, 'n', 'c', b(0)...), concat([]int{9}, l, 'r', 'c', b(0)...))
	}
	src := []int{0, 1, 2, 3}
	for _, bufs := range [][]int{{}, {0}, {2}, {0, 0}, {0, 1}, {3, 1}, {1, 0}} {
		for _, in := range [][]any{{}, {1}, {1, 2}, {nil, 1, nil}, {[]any{1, 2}}, {errors.New("an error"), []int{1}}} {
			r = append(r, copies(src, in, bufs, 'c', b(0, 1)...))
		}
		r = append(r, copies([]int{1}, []any{1, 2}, bufs, 'c', b(0, 1, 2)...))
	}
	for _, bufs := range [][]int{{0, 0, 0}, {2, 0, 1}, {1, 1, 2}} {
		r = append(r, copies([]int{1}, []any{1, 2}, bufs, 'c', b(0)...))
		r = append(r, copies([]int{1, 0}, []any{1}, bufs, 'c', b(0, 1)...))
	}
	r = append(r, copies(src, []any{1, 2, 2, 1}, []int{2, 1}, 'c', b(0)...))
	for _, bufs := range [][]int{{0}, {0, 3}, {3, 0}, {3, 3}, {5, 3}, {3, 0, 4}} {
		for n := 0; n <= 3; n++ {
			r = append(r, copies([]int{1, 0}, elems(1, n), bufs, 's', b(0, 1)...))
		}
	}
	r = append(r, copies([]int{1}, []any{1, 2}, []int{0, 1}, 'p', b(0)...))
	// many streams and copies, long ones, under a delay bound
	far := func(d int, s *vrt.Scenario) {
		if deep && d > 0 {
			d++
		}
		s.Name += " (delays)"
		s.Delay, s.RaceBound, s.Bounds = true, -1, []int{0, d}
		r = append(r, s)
	}
	for k := 1; k <= 12; k++ {
		var ones, mixed, long []int
		for i := 0; i < k; i++ {
			ones, mixed, long = append(ones, 1), append(mixed, (i*7+k)%4), append(long, 40-i)
		}
		for _, sh := range "mfnr" {
			far(1, concat([]int{9}, ones, byte(sh), 'c'))
			far(0, concat(all, mixed, byte(sh), 'c'))
			far(0, concat([]int{9, 3}, long, byte(sh), 'i'))
			far(0, concat([]int{2}, long, byte(sh), '2'))
			far(0, concat([]int{9}, long, byte(sh), 'n'))
		}
		far(1, copies(src, elems(0, 3), ones, 'c'))
		far(0, copies([]int{1}, elems(0, 40), mixed, 'c'))
		far(0, copies([]int{0, 2}, elems(0, 49), long, 'c'))
		far(0, copies([]int{0, 3}, elems(0, 12), long, 's'))
		far(1, copies([]int{1}, elems(0, 5), mixed, 'p'))
	}
	for _, n := range []int{16, 17, 31, 32, 33, 48} {
		far(0, concat([]int{9, 2}, []int{n, 1, n}, 'm', 'c'))
		for _, buf := range []int{0, 1, n - 1, n, n + 1, 100} {
			far(0, copies(src, elems(0, n), []int{buf, 0, 3}, 'c'))
		}
	}
	// hundreds of streams, copies, elements and places
	for _, n := range []int{1, 15, 16, 17, 63, 64, 65, 100, 127, 129, 255, 256, 257, 300, 511, 513, 600, 1025} {
		for _, src := range []int{0, 1} {
			r = append(r, manyStreams(src, n, 1, "mf"[n%2], 0))
			if n < 600 {
				r = append(r, manyStreams(src, n, 3, "mf"[src], 0))
			}
		}
		if n > 1 {
			r = append(r, manyStreams(1, 2, n, 'm', 0), manyStreams(0, 3, n*2+1, 'f', 0))
		}
		bufs := make([]int, n)
		for i := range bufs {
			bufs[i] = i * 7 % 5
		}
		if n < 520 {
			r = append(r, manyCopies(1, 2, bufs, 0))
		}
		for _, k := range []int{2, n + 2, n*3 + 5} {
			r = append(r, manyCopies(1, k, []int{n}, 0), manyCopies(0, k, []int{n - 1, 0, n + 1}, 0), manyCopies(1, k, []int{4 * n, n}, 0))
		}
	}
	r = append(r, manyCopies(1, 5, []int{65536, 65537, 100000}, 0), manyStreams(1, 1, 5000, 'm', 0), manyStreams(1, 2, 5000, 'f', 0), manyStreams(1, 2, 10007, 'm', 0), manyStreams(0, 2, 66001, 'f', 0), manyCopies(1, 10007, []int{0, 1, 20000}, 0), manyCopies(0, 66001, []int{0, 3, 65536}, 0), manyStreams(1, 2100, 1, 'm', 0))
	return r
}
