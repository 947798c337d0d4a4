// P22: ending a stream early is correct and strands no producer.
package main

import (
	"errors"
	"fmt"

	"github.com/chenquan/go-pkg/xstream"
	"github.com/chenquan/go-pkg/zverif/h/lib/streams"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P22", scenarios) }

type stage = streams.Stage

// upstream builds source and stages: sequential stages by streams.Stage, and M parallel Map, W parallel
// Walk sending every element twice, C Concat with a second stream, Y Copy whose other copy is consumed
// by a thread, A a second AnyMach-free branch (Sort), R Reverse, g Group, P Split(2), S SplitSteam(2)
// turned back into elements by FlatMap-like reading.
func upstream(x *vrt.X, src int, in []any, ops []stage) (*xstream.Stream, []any, bool) {
	ordered := true
	st := streams.Source(x, src, in)
	for i, o := range ops {
		switch o.Op {
		case 'M':
			st = st.Map(func(v any) any { return v }, xstream.WithWorkSize(o.N))
			ordered = ordered && o.N < 2
		case 'W':
			st = st.Walk(func(v any, pipe chan<- any) { pipe <- v; pipe <- v }, xstream.WithWorkSize(o.N))
			ordered = ordered && o.N < 2
			var d []any
			for _, v := range in {
				d = append(d, v, v)
			}
			in = d
		case 'C':
			var more []any
			for j := 0; j < o.N; j++ {
				more = append(more, 50+j)
			}
			st = st.Concat(streams.Source(x, 1, more))
			in = append(append([]any(nil), in...), more...)
			ordered = false
		case 'Y':
			m := st.Copy(map[string]int{"a": o.N, "b": 0})
			x.Go("consumer of the other copy", func() { m["b"].Count() })
			st = m["a"]
		case 'P':
			st = st.Split(2)
			var d []any
			for j := 0; j < len(in); j += 2 {
				d = append(d, in[j:min(j+2, len(in))])
			}
			in = d
		case 'S':
			st = st.Sort(func(a, b any) bool { return streams.Num(a) < streams.Num(b) })
		case 'R':
			st = st.Reverse()
			var d []any
			for j := range in {
				d = append(d, in[len(in)-1-j])
			}
			in = d
		default:
			if !ordered {
				o.Opt = 9
			}
			st = o.Apply(x, st, i, in)
			in = o.List(in)
		}
	}
	return st, in, ordered
}

// early explores one pipeline. Ends: any/all (predicate deciding on element p), first, limit n with Chan
// or FindFirst or a thread consuming, tail0, limit0, skip-1, tail-1, splitsteam0/-1.
func early(src []int, in []any, ops []stage, ends []string, bounds ...int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("sources %v of %v stages %v(%s) ends %v", src, in, ops, streams.Show(ops), ends), Bounds: bounds, Body: func(x *vrt.X) {
		const base = 30
		k := x.Choose(len(src))
		end := ends[x.Choose(len(ends))]
		x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
		st, want, ordered := upstream(x, src[k], in, ops)
		x.Note("end %s", end)
		var arg int
		var kind string
		fmt.Sscanf(end, "%s %d", &kind, &arg)
		has := func(v any) bool {
			for _, w := range want {
				if streams.Same(v, w) {
					return true
				}
			}
			return false
		}
		// fits: v may be delivered as element i
		fits := func(i int, v any) bool {
			if ordered {
				return i < len(want) && streams.Same(v, want[i])
			}
			return has(v)
		}
		// pred decides on the elements that are the arg-th one; register base: calls, base+1: decided
		pred := func(deciding bool) func(any) bool {
			return func(v any) bool {
				n := x.Reg(base)
				x.Note("predicate gets %v", v)
				if x.Reg(base+1) != 0 {
					x.Fail("the predicate is evaluated for %v after an element decided", v)
				}
				if !fits(n, v) {
					x.Fail("evaluation %d is of %v, the elements are %v", n+1, v, want)
				}
				x.SetReg(base, n+1)
				if arg >= 0 && arg < len(want) && streams.Same(v, want[arg]) {
					x.SetReg(base+1, 1)
					return deciding
				}
				return !deciding
			}
		}
		decided := arg >= 0 && arg < len(want)
		rejects := func(f func()) {
			defer func() {
				if recover() == nil {
					x.Fail("%s did not reject its argument", end)
				}
			}()
			f()
		}
		switch kind {
		case "any":
			if got := st.AnyMach(pred(true)); got != decided {
				x.Fail("AnyMach returned %v", got)
			}
		case "all":
			if got := st.AllMach(pred(false)); got == decided {
				x.Fail("AllMach returned %v", got)
			}
		case "first":
			v, err := st.FindFirst()
			switch {
			case len(want) == 0:
				if err != xstream.ErrNoElement || v != nil {
					x.Fail("FindFirst of an empty stream returned %v, %v", v, err)
				}
			case err != nil || !fits(0, v):
				x.Fail("FindFirst returned %v, %v; the elements are %v", v, err, want)
			}
		case "limit", "limitfirst", "limitany", "limitlimit":
			l := st.Limit(arg)
			n := min(arg, len(want))
			switch kind {
			case "limitfirst":
				v, err := l.FindFirst()
				if n == 0 && (err == nil || v != nil) || n > 0 && (err != nil || !fits(0, v)) {
					x.Fail("Limit(%d).FindFirst returned %v, %v; the elements are %v", arg, v, err, want)
				}
			case "limitany":
				if l.AnyMach(func(any) bool { return true }) != (n > 0) {
					x.Fail("Limit(%d).AnyMach(true) is wrong", arg)
				}
			default:
				if kind == "limitlimit" && n > 1 {
					l = l.Limit(n - 1)
					n--
				}
				i := 0
				for v := range l.Chan() {
					if i >= n || !fits(i, v) {
						x.Fail("Limit(%d) delivers %v as element %d; the elements are %v", arg, v, i+1, want)
					}
					i++
				}
				if i != n {
					x.Fail("Limit(%d) delivered %d elements of %v", arg, i, want)
				}
			}
		case "tail":
			if n := st.Tail(0).Count(); n != 0 {
				x.Fail("Tail(0) delivers %d elements", n)
			}
		case "tailfirst":
			if v, err := st.Tail(0).FindFirst(); err != xstream.ErrNoElement || v != nil {
				x.Fail("Tail(0).FindFirst returned %v, %v", v, err)
			}
		case "skipneg":
			rejects(func() { st.Skip(-1 - arg) })
		case "tailneg":
			rejects(func() { st.Tail(-1 - arg) })
		case "splitbad":
			rejects(func() { st.SplitSteam(-arg) })
		case "ignore": // early end further up: the stage before already delivered its share
			st.Done()
		}
	}}
}

func ints(n int) (r []any) {
	for i := 1; i <= n; i++ {
		r = append(r, i)
	}
	return
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	b := func(bs ...int) []int {
		if deep {
			bs = append(bs, bs[len(bs)-1]+1)
		}
		return bs
	}
	rest := []string{"first", "limit 0", "limit 1", "limit 2", "limit 9", "limitfirst 0", "limitfirst 1", "limitfirst 2", "limitany 2", "limitlimit 2",
		"tail", "tailfirst", "skipneg 0", "skipneg 4", "tailneg 0", "tailneg 6", "splitbad 0", "splitbad 1"}
	// every end directly on every source
	for n := 0; n <= 4; n++ {
		ends := append([]string(nil), rest...)
		for p := -1; p < n; p++ {
			ends = append(ends, fmt.Sprint("any ", p), fmt.Sprint("all ", p))
		}
		bs := []int{0, 1, 2}
		if n == 4 {
			bs = []int{0, 1}
		}
		r = append(r, early([]int{0, 1, 2, 3}, ints(n), nil, ends, b(bs...)...))
	}
	r = append(r, early([]int{0, 1, 2, 3}, []any{nil, 1, nil}, nil, []string{"first", "any 0", "any 1", "all 0", "all 1", "limit 1", "limit 2", "limitfirst 1"}, b(0, 1)...))
	for _, in := range [][]any{{[]any{1, 2}, []any{}}, {[]any{nil}}, {errors.New("an error"), []int{1, 2}}} {
		r = append(r, early([]int{0, 1, 2, 3}, in, nil, []string{"first", "any 0", "any 1", "all 0", "all 1", "limit 1", "limit 2", "limitfirst 1"}, b(0, 1)...))
	}
	// one stage between
	one := []stage{{Op: 'b', N: 0}, {Op: 'b', N: 1}, {Op: 'b', N: 5}, {Op: 'k'}, {Op: 's', N: 0}, {Op: 's', N: 1}, {Op: 's', N: 9}, {Op: 'l', N: 0}, {Op: 'l', N: 1}, {Op: 'l', N: 2}, {Op: 'l', N: 9},
		{Op: 't', N: 1}, {Op: 't', N: 2}, {Op: 't', N: 9}, {Op: 'd'}, {Op: 'd', N: 2}, {Op: 'f'}, {Op: 'f', N: 2}, {Op: 'f', N: 1}, {Op: 'w', N: 0}, {Op: 'w', N: 2}, {Op: 'm'}, {Op: 'x'},
		{Op: 'M', N: 2}, {Op: 'M', N: 3}, {Op: 'W', N: 2}, {Op: 'C', N: 2}, {Op: 'C', N: 1}, {Op: 'Y', N: 0}, {Op: 'Y', N: 2}, {Op: 'P'}, {Op: 'S'}, {Op: 'R'}}
	short := []string{"any 0", "any 1", "any -1", "all 0", "all 1", "first", "limit 1", "limitfirst 1", "tail", "skipneg 0", "tailneg 0", "splitbad 0"}
	for _, o := range one {
		bs := []int{0, 1}
		if o.Op == 'W' {
			bs = []int{0}
		}
		r = append(r, early([]int{1}, ints(3), []stage{o}, append([]string{"limit 0", "any 2", "all -1", "limit 2", "limitany 1", "tailfirst"}, short...), b(bs...)...))
		r = append(r, early([]int{0, 2, 3}, ints(2), []stage{o}, short, b(0)...))
	}
	// two and three stages between
	two := []stage{{Op: 'b', N: 1}, {Op: 'k'}, {Op: 's', N: 1}, {Op: 'l', N: 1}, {Op: 'l', N: 2}, {Op: 't', N: 2}, {Op: 'd'}, {Op: 'f', N: 2}, {Op: 'w', N: 2}, {Op: 'm'}, {Op: 'M', N: 2}, {Op: 'C', N: 1}, {Op: 'Y', N: 0}, {Op: 'P'}}
	for _, a := range two {
		for _, c := range two {
			if (a.Op == 'M' || a.Op == 'C') && (c.Op == 'w' || c.Op == 's' || c.Op == 'l' || c.Op == 't' || c.Op == 'P') {
				continue // which elements remain depends on the order
			}
			r = append(r, early([]int{1}, ints(3), []stage{a, c}, []string{"first", "any 1", "all 0", "limit 1", "tail", "skipneg 0", "limitfirst 1"}, b(0)...))
		}
	}
	three := []stage{{Op: 'b', N: 1}, {Op: 's', N: 1}, {Op: 'l', N: 1}, {Op: 'd'}, {Op: 'm'}, {Op: 'k'}}
	for _, a := range three {
		for _, c := range three {
			for _, d := range three {
				r = append(r, early([]int{1}, ints(3), []stage{a, c, d}, []string{"first", "any 0", "limit 1"}, b(0)...))
			}
		}
	}
	// long streams and deep pipelines, under a delay bound
	far := func(d int, src []int, n int, ops []stage, ends ...string) {
		s := early(src, ints(n), ops, ends, 0, d)
		s.Name += " (delays)"
		s.Delay, s.RaceBound = true, -1
		r = append(r, s)
	}
	for _, n := range []int{7, 15, 16, 17, 31, 32, 33, 64, 65, 100} {
		var ends []string
		for _, p := range []int{0, 1, 2, 3, 7, 8, 15, 16, 17, n - 2, n - 1} {
			ends = append(ends, fmt.Sprint("any ", p), fmt.Sprint("all ", p), fmt.Sprint("limit ", p), fmt.Sprint("limitfirst ", p), fmt.Sprint("limitlimit ", p))
		}
		ends = append(ends, "any -1", "all -1", "first", "tail", "tailfirst", "skipneg 0", "tailneg 0", "splitbad 0")
		far(0, []int{0, 1, 2, 3}, n, nil, ends...)
		for _, o := range one {
			if o.Op != 'A' {
				far(0, []int{1}, n, []stage{o}, "any 0", "any 5", "all 2", "first", "limit 1", "limit 2", "limit 20", "tail", "skipneg 0", "tailneg 0", "splitbad 0", "limitfirst 3")
			}
		}
		for _, o := range []stage{{Op: 'b', N: n / 2}, {Op: 'b', N: n - 2}, {Op: 's', N: n / 2}, {Op: 's', N: n - 1}, {Op: 'l', N: n / 2}, {Op: 'l', N: n - 1}, {Op: 't', N: n / 2}, {Op: 't', N: n}, {Op: 'C', N: n}, {Op: 'Y', N: n / 2}, {Op: 'M', N: 17}} {
			far(0, []int{0, 1, 2, 3}, n, []stage{o}, ends...)
		}
		deepOps := []stage{}
		for i := 0; i < 8; i++ {
			for _, o := range []stage{{Op: 'k'}, {Op: 'b', N: 1}, {Op: 'm'}, {Op: 'Y', N: 0}, {Op: 'k'}, {Op: 's', N: 1}, {Op: 'd'}, {Op: 'l', N: n}}[i:] {
				deepOps = append(deepOps, o)
				break
			}
			if n > 9 && i < 7 {
				continue
			}
			d, k := 1, n
			if n > 9 {
				d = 0
			}
			far(d, []int{1}, k, deepOps[:i+1:i+1], "first", "any 0", "limit 1", "tail", "skipneg 0")
		}
	}
	// streams of thousands of elements, one schedule
	for _, n := range []int{129, 257, 511, 513, 1000, 1023, 1024, 1025, 1026, 2049, 3000, 4097, 10007, 66001} {
		var ends []string
		for _, p := range []int{0, 1, n / 2, n - 2, n - 1} {
			ends = append(ends, fmt.Sprint("any ", p), fmt.Sprint("all ", p), fmt.Sprint("limit ", p), fmt.Sprint("limitfirst ", p))
		}
		ends = append(ends, "any -1", "first", "tail", "skipneg 0", "tailneg 0", "splitbad 0")
		if n > 5000 {
			ends = []string{"any 1", fmt.Sprint("all ", n-1), "limit 1", "any -1", "first", "tail"}
		}
		huge := func(src []int, ops []stage) {
			s := early(src, ints(n), ops, ends, 0)
			s.Name = fmt.Sprintf("sources %v of %d elements stages %s", src, n, streams.Show(ops))
			s.Horizon = 100 * n
			r = append(r, s.Delays(0))
		}
		huge([]int{1, 3}, nil)
		if n > 1000 {
			few := []string{"any 0", "all 1", "limit 1", "limitfirst 1", "first", "tail", "skipneg 0", "splitbad 0"}
			ends = few
			if n > 5000 {
				ends = []string{"any 0", "limit 1", "tail"}
			}
			for _, o := range []stage{{Op: 'k'}, {Op: 'b', N: 1}, {Op: 'l', N: 5}, {Op: 's', N: 1}, {Op: 's', N: n - 2}, {Op: 'm'}, {Op: 'd'}, {Op: 'f', N: 2}, {Op: 'C', N: 1}, {Op: 'P'}, {Op: 'Y', N: 0}, {Op: 'M', N: 3}} {
				o.Opt = 9
				huge([]int{1}, []stage{o})
			}
		}
	}
	return r
}
