// P20: parallel stream stages process every element exactly once.
package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/chenquan/go-pkg/xstream"
	"github.com/chenquan/go-pkg/zverif/h/lib/odd"
	"github.com/chenquan/go-pkg/zverif/h/lib/streams"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P20", scenarios) }

// op is one parallel stage: f Filter (keeps odd numbers), w Walk sending sends values per element,
// m Map, x FlatMap, p ParallelFinish.
type op struct {
	kind  byte
	n     int // work size
	sends int
	twice bool // the option given twice, the last one counts
}

func (o op) String() string { return fmt.Sprintf("%c(%d sends %d %v)", o.kind, o.n, o.sends, o.twice) }

func (o op) opts() []xstream.Option {
	if o.twice {
		return []xstream.Option{xstream.WithWorkSize(5), xstream.WithWorkSize(o.n)}
	}
	return []xstream.Option{xstream.WithWorkSize(o.n)}
}

// results are the values that the callback for v sends, in order; those after a panic are missing.
func (o op) results(v int, panics int) (r []int) {
	switch o.kind {
	case 'f':
		if v%2 == 1 {
			r = []int{v}
		}
	case 'm', 'x':
		r = []int{v + 10}
	case 'w':
		for i := 0; i < o.sends; i++ {
			r = append(r, v+10*(i+1))
		}
	}
	if panics > 0 && panics-1 < len(r) {
		r = r[:panics-1]
	}
	return
}

// stage is one stage in a scenario with its monitor registers: base calls started, base+1 calls ended,
// base+2+v calls for element v.
type stage struct {
	x      *vrt.X
	o      op
	name   string
	base   int
	calls  []int       // the elements it should be called for
	panics map[int]int // element -> the callback panics before its i-th send (1: the first)
}

func (s *stage) enter(v int) {
	x := s.x
	x.Note("%s runs for %d", s.name, v)
	// the count of v among the calls, as far as it matters, looking first where it usually is
	n, k := 0, x.Reg(s.base+2+v)
	for j := 0; j < len(s.calls) && n <= k; j++ {
		if s.calls[(max(v, 1)-1+j)%len(s.calls)] == v {
			n++
		}
	}
	if k >= n {
		x.Fail("%s was called for element %d %d times, want %d", s.name, v, k+1, n)
	}
	x.SetReg(s.base+2+v, k+1)
	x.SetReg(s.base, x.Reg(s.base)+1)
	x.Enter(s.name)
}

func (s *stage) leave() {
	s.x.Step()
	s.x.SetReg(s.base+1, s.x.Reg(s.base+1)+1)
	s.x.Leave(s.name)
}

// done checks that every callback has run and ended.
func (s *stage) done(when string) {
	if a, b := s.x.Reg(s.base), s.x.Reg(s.base+1); a != len(s.calls) || b != a {
		s.x.Fail("%s: %d callbacks of %s started and %d ended, want %d", when, a, s.name, b, len(s.calls))
	}
}

func (s *stage) body(v int) {
	if s.panics[v] == 1 {
		panic(fmt.Sprint("callback for ", v))
	}
}

// apply adds the stage; ParallelFinish returns nil.
func (s *stage) apply(st *xstream.Stream) *xstream.Stream {
	limit := s.o.n
	if limit < 1 {
		limit = 1
	}
	s.x.AtEnd(func(e *vrt.End) {
		if m := e.Max(s.name); m > limit {
			e.Fail("%d callbacks of %s ran at once, the work size is %d", m, s.name, s.o.n)
		}
	})
	switch s.o.kind {
	case 'f':
		return st.Filter(func(item any) bool {
			v := item.(int)
			s.enter(v)
			defer s.leave()
			s.body(v)
			return v%2 == 1
		}, s.o.opts()...)
	case 'm', 'x':
		f := func(item any) any {
			v := item.(int)
			s.enter(v)
			defer s.leave()
			s.body(v)
			return v + 10
		}
		if s.o.kind == 'm' {
			return st.Map(f, s.o.opts()...)
		}
		return st.FlatMap(f, s.o.opts()...)
	case 'w':
		return st.Walk(func(item any, pipe chan<- any) {
			v := item.(int)
			s.enter(v)
			defer s.leave()
			for i := 0; i < s.o.sends; i++ {
				if s.panics[v] == i+1 {
					panic(fmt.Sprint("callback for ", v))
				}
				pipe <- v + 10*(i+1)
			}
			if s.panics[v] > s.o.sends {
				panic(fmt.Sprint("callback for ", v))
			}
		}, s.o.opts()...)
	case 'p':
		st.ParallelFinish(func(item any) {
			v := item.(int)
			s.enter(v)
			defer s.leave()
			s.body(v)
		}, s.o.opts()...)
		s.done("ParallelFinish returned")
	}
	return nil
}

// run builds source -> stages -> consumer. flat: elements arrive in slices (FlatMap first).
func run(src int, items [][]int, ops []op, panics []map[int]int, term byte, bounds ...int) *vrt.Scenario {
	name := fmt.Sprintf("source %d %v stages %v panics %v end %c", src, items, ops, panics, term)
	if len(name) > 600 {
		np := 0
		for _, p := range panics {
			np += len(p)
		}
		name = fmt.Sprintf("source %d %d elements stages %v %d panics end %c", src, len(items), ops, np, term)
	}
	space := 60
	if len(items) > 40 {
		space = len(items) + 20
		for _, o := range ops {
			space += 10 * (o.sends + 1)
		}
	}
	return &vrt.Scenario{Name: name, Bounds: bounds, Body: func(x *vrt.X) {
		var in []any
		var vals []int
		for _, l := range items {
			if len(l) == 1 {
				in = append(in, l[0])
			} else {
				var e []any
				for _, v := range l {
					e = append(e, v)
				}
				in = append(in, e)
			}
			vals = append(vals, l...)
		}
		st := streams.Source(x, src, in)
		var all []*stage
		base := 0
		for i, o := range ops {
			var p map[int]int
			if i < len(panics) {
				p = panics[i]
			}
			s := &stage{x: x, o: o, name: fmt.Sprintf("the callback of stage %d", i+1), base: base, calls: vals, panics: p}
			base += space
			var out []int
			if o.kind == 'x' { // a panic ends the whole list
				for _, l := range items {
					for j, v := range l {
						if p[v] > 0 {
							s.calls = nil
							for _, l2 := range items {
								if &l2[0] == &l[0] {
									s.calls = append(s.calls, l[:j+1]...)
								} else {
									s.calls = append(s.calls, l2...)
								}
							}
							break
						}
						out = append(out, o.results(v, 0)...)
					}
				}
			} else {
				for _, v := range vals {
					out = append(out, o.results(v, p[v])...)
				}
			}
			vals = out
			st = s.apply(st)
			all = append(all, s)
		}
		left := map[int]int{}
		for _, v := range vals {
			left[v]++
		}
		got := func(v any) {
			x.Note("the consumer gets %v", v)
			n, ok := v.(int)
			if !ok || x.Reg(base+n) >= left[n] {
				x.Fail("the consumer got %v more often than it was sent (all values sent: %v)", v, vals)
			}
			x.SetReg(base+n, x.Reg(base+n)+1)
		}
		end := func(when string) {
			var missing []int
			for v, n := range left {
				if x.Reg(base+v) != n {
					missing = append(missing, v)
				}
			}
			if len(missing) > 0 {
				sort.Ints(missing)
				x.Fail("%s but the consumer did not get every %v", when, missing)
			}
			for _, s := range all {
				s.done(when)
			}
		}
		if st != nil {
			switch term {
			case 'c':
				for v := range st.Chan() {
					got(v)
				}
				end("the stream closed")
			case 'n':
				if n := st.Count(); n != len(vals) {
					x.Fail("Count returned %d, want %d", n, len(vals))
				}
				for _, s := range all {
					s.done("the stream closed")
				}
			case '2': // two consumers
				for i := 0; i < 2; i++ {
					x.Go(fmt.Sprint("consumer ", i+1), func() { st.Foreach(got) })
				}
				x.Wait()
				end("both consumers saw the end")
			case 'i': // nobody reads until everything stands still
				x.Quiesce()
				for v := range st.Chan() {
					got(v)
				}
				end("the stream closed")
			}
		}
		x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
	}}
}

// values runs a stage on two elements of every kind, results of every kind.
func values(kind byte, n, shift int, bounds ...int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("elements of every kind, stage %c(%d) shift %d", kind, n, shift), Bounds: bounds, Body: func(x *vrt.X) {
		k := len(odd.Values) + 1
		a := x.Choose(k) - 1
		b := (a+1+shift)%k - 1
		next := func(i int) int { return (i+1+shift)%k - 1 }
		x.Note("%s and %s", odd.Name(a), odd.Name(b))
		call := func(item any) int {
			i := odd.Index(item)
			if i != a && i != b {
				x.Fail("the callback got %s", odd.Name(i))
			}
			x.SetReg(2+i, x.Reg(2+i)+1)
			x.Step()
			return i
		}
		in := []any{odd.At(a), odd.At(b)}
		if kind == 'x' {
			in = []any{in}
		}
		st := streams.Source(x, 2, in)
		opt := xstream.WithWorkSize(n)
		left := map[int]int{}
		f := func(item any) any { return odd.At(next(call(item))) }
		switch kind {
		case 'f':
			st = st.Filter(func(item any) bool { return call(item)%2 == 0 }, opt)
			for _, i := range []int{a, b} {
				if i%2 == 0 {
					left[i]++
				}
			}
		case 'm', 'x':
			if kind == 'm' {
				st = st.Map(f, opt)
			} else {
				st = st.FlatMap(f, opt)
			}
			left[next(a)]++
			left[next(b)]++
		case 'w':
			st = st.Walk(func(item any, pipe chan<- any) {
				i := call(item)
				pipe <- item
				pipe <- odd.At(next(i))
			}, opt)
			for _, i := range []int{a, b} {
				left[i]++
				left[next(i)]++
			}
		case 'p':
			st.ParallelFinish(func(item any) { call(item) }, opt)
			st = xstream.Of()
		}
		for v := range st.Chan() {
			i := odd.Index(v)
			if left[i] == 0 {
				x.Fail("the output has %s, which was not sent (so often)", odd.Name(i))
			}
			left[i]--
		}
		for _, i := range []int{a, b, next(a), next(b)} {
			if left[i] != 0 {
				x.Fail("the output lacks %s", odd.Name(i))
			}
		}
		want := 1
		if a == b {
			want = 2
		}
		for _, i := range []int{a, b} {
			if x.Reg(2+i) != want {
				x.Fail("%d calls for %s, want %d", x.Reg(2+i), odd.Name(i), want)
			}
		}
		x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
	}}
}

func flat(n int) (r [][]int) {
	for i := 1; i <= n; i++ {
		r = append(r, []int{i})
	}
	return
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	seen := map[string]bool{}
	add := func(s *vrt.Scenario) {
		if !seen[s.Name] {
			seen[s.Name] = true
			r = append(r, s)
		}
	}
	for _, kind := range []byte("fmxwp") {
		for n := 0; n <= 2; n++ {
			for shift := 0; shift <= 1; shift++ {
				add(values(kind, n, shift, 0, 1))
			}
		}
	}
	var ops []op
	sizes := []int{-1, 0, 1, 2, 3}
	for _, n := range sizes {
		ops = append(ops, op{kind: 'f', n: n}, op{kind: 'm', n: n}, op{kind: 'x', n: n}, op{kind: 'p', n: n}, op{kind: 'w', n: n, sends: 2}, op{kind: 'w', n: n})
	}
	ops = append(ops, op{kind: 'm', n: 2, twice: true}, op{kind: 'w', n: 1, sends: 1, twice: true}, op{kind: 'm', n: 7})
	for _, o := range ops {
		for k := 0; k <= 3; k++ {
			items := flat(k)
			bs := []int{0, 1, 2}
			if k == 3 && o.sends == 2 && o.n > 1 {
				bs = []int{0}
			} else if k == 3 || o.sends == 2 && k == 2 {
				bs = []int{0, 1}
			}
			if deep {
				bs = append(bs, bs[len(bs)-1]+1)
			}
			add(run(1, items, []op{o}, nil, 'c', bs...))
		}
	}
	for _, n := range []int{2, 3} {
		b := []int{0, 1}
		if deep {
			b = []int{0, 1, 2}
		}
		// one element more than workers and more
		add(run(1, flat(n+1), []op{{kind: 'm', n: n}}, nil, 'c', b...))
		add(run(1, flat(n+1), []op{{kind: 'p', n: n}}, nil, 'c', b...))
		add(run(0, flat(n+1), []op{{kind: 'f', n: n}}, nil, 'c', b...))
		add(run(2, flat(n+2), []op{{kind: 'w', n: n, sends: 1}}, nil, 'c', 0))
		add(run(3, flat(n), []op{{kind: 'm', n: n}}, nil, 'n', b...))
		add(run(1, flat(n), []op{{kind: 'm', n: n}}, nil, '2', b...))
		add(run(1, flat(n+1), []op{{kind: 'w', n: n, sends: 1}}, nil, 'i', b...))
		// lists
		add(run(1, [][]int{{1, 2}, {3}}, []op{{kind: 'x', n: n}}, nil, 'c', b...))
		add(run(1, [][]int{{1, 2}, {3, 4}}, []op{{kind: 'x', n: n}}, nil, 'c', b...))
		// equal elements
		add(run(1, [][]int{{1}, {1}, {2}}, []op{{kind: 'm', n: n}}, nil, 'c', b...))
		// two stages
		add(run(1, flat(2), []op{{kind: 'm', n: n}, {kind: 'f', n: 2}}, nil, 'c', b...))
		add(run(1, flat(3), []op{{kind: 'm', n: n}, {kind: 'p', n: 2}}, nil, 'c', 0))
		add(run(1, flat(2), []op{{kind: 'w', n: n, sends: 2}, {kind: 'm', n: 2}}, nil, 'c', 0))
	}
	// panics
	for _, n := range []int{1, 2, 3} {
		for _, o := range []op{{kind: 'f', n: n}, {kind: 'm', n: n}, {kind: 'p', n: n}, {kind: 'x', n: n}, {kind: 'w', n: n, sends: 2}} {
			b := []int{0, 1}
			if deep {
				b = []int{0, 1, 2}
			}
			add(run(1, flat(1), []op{o}, []map[int]int{{1: 1}}, 'c', 0, 1, 2))
			add(run(1, flat(2), []op{o}, []map[int]int{{1: 1}}, 'c', b...))
			add(run(1, flat(3), []op{o}, []map[int]int{{1: 1, 2: 1, 3: 1}}, 'c', b...))
			add(run(1, flat(3), []op{o}, []map[int]int{{2: 1}}, 'c', b...))
			if o.kind == 'w' {
				add(run(1, flat(2), []op{o}, []map[int]int{{1: 2, 2: 3}}, 'c', b...))
			}
		}
		add(run(1, [][]int{{1, 2, 3}, {4}}, []op{{kind: 'x', n: n}}, []map[int]int{{2: 1}}, 'c', 0, 1))
	}
	// large work sizes and many elements, under a delay bound
	far := func(d int, src, k int, panics map[int]int, term byte, ops ...op) {
		if deep && k < 13 {
			d++
		}
		s := run(src, flat(k), ops, []map[int]int{panics}, term, 0, d)
		s.Name += " (delays)"
		s.Delay, s.RaceBound, s.Horizon = true, -1, 100*k
		add(s)
	}
	for _, n := range []int{-1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33} {
		for _, o := range []op{{kind: 'f', n: n}, {kind: 'm', n: n}, {kind: 'p', n: n}, {kind: 'x', n: n}, {kind: 'w', n: n, sends: 1}} {
			k := min(2*max(n, 1)+3, 36)
			far(1, 1, k, nil, 'c', o)
			if n < 6 {
				far(2, 1, n+3, nil, 'c', o)
				far(2, 1, n+2, map[int]int{2: 1}, 'c', o)
			}
			far(0, 0, 36, nil, 'i', o)
			far(0, 3, 36, map[int]int{1: 1, 2: 1, 9: 1, 17: 1, 36: 1}, 'c', o)
			all := map[int]int{}
			for i := 1; i < 36; i++ {
				all[i] = 1
			}
			far(0, 1, 36, all, 'c', o)
		}
		far(0, 2, 11, nil, '2', op{kind: 'm', n: n}, op{kind: 'w', n: 9, sends: 1}, op{kind: 'f', n: 2})
	}
	for _, n := range []int{1, 2, 16, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 513, 1025, 2049} {
		for _, o := range []op{{kind: 'f', n: n}, {kind: 'm', n: n}, {kind: 'p', n: n}, {kind: 'x', n: n}, {kind: 'w', n: n, sends: 2}} {
			k := 2*n + 170
			if n > 300 {
				k = n + 20
			}
			far(0, 1, k, nil, 'c', o)
			some := map[int]int{}
			for i := 1; i < k; i += 1 + i%3 {
				some[i] = 1
			}
			far(0, 0, k, some, 'c', o)
			if n < 200 && o.kind != 'p' {
				far(0, 1, k, nil, 'i', o)
				far(0, 1, k, nil, '2', o, op{kind: 'm', n: 3})
			}
		}
	}
	for _, n := range []int{1 << 16, 1 << 33, 1 << 40, 1 << 62, math.MaxInt} {
		for _, o := range []op{{kind: 'f', n: n}, {kind: 'm', n: n}, {kind: 'p', n: n}, {kind: 'x', n: n}, {kind: 'w', n: n, sends: 2}} {
			far(1, 1, 3, nil, 'c', o)
			far(0, 0, 36, map[int]int{2: 1}, 'c', o)
			far(0, 1, 36, nil, 'i', o)
		}
	}
	for _, n := range []int{1, 4} {
		for _, k := range "fmpx" {
			far(0, 1, 2600, nil, 'c', op{kind: byte(k), n: n})
			far(0, 0, 10007, nil, 'c', op{kind: byte(k), n: n})
			far(0, 1, 66001, nil, 'c', op{kind: byte(k), n: n})
		}
	}
	if deep {
		for _, n := range []int{2, 3, 4} {
			add(run(1, flat(n+2), []op{{kind: 'm', n: n}}, nil, 'c', 0, 1))
			add(run(1, flat(n+2), []op{{kind: 'p', n: n}}, nil, 'c', 0, 1, 2))
			add(run(1, flat(3), []op{{kind: 'm', n: n}, {kind: 'w', n: 2, sends: 1}, {kind: 'f', n: 2}}, nil, 'c', 0, 1))
		}
	}
	return r
}
