// P19: sequential stream pipelines equal the list functions, in order.
package main

import (
	"errors"
	"fmt"
	"math"

	"github.com/chenquan/go-pkg/zverif/h/lib/streams"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P19", scenarios) }

type stage = streams.Stage

// pipe explores one pipeline over every choice of input, source and end.
func pipe(stages []stage, inputs [][]any, sources []int, terms string, bounds ...int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("%s inputs %v sources %v ends %s", streams.Show(stages), inputs, sources, terms), Bounds: bounds, Body: func(x *vrt.X) {
		in := inputs[x.Choose(len(inputs))]
		src := sources[x.Choose(len(sources))]
		t := terms[x.Choose(len(terms))]
		x.Note("input %v source %d end %c", in, src, t)
		st, want := streams.Build(x, src, in, stages)
		streams.Finish(x, st, t, want, len(stages))
		x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
	}}
}

// long explores one stage on streams of many lengths, in one schedule each.
func long(s stage, tier, terms string) *vrt.Scenario {
	var ins [][]any
	hi, step := 60, 1
	if tier == "thorough" {
		hi = 200
	}
	for n := 5; n <= hi; n += step {
		var in []any
		for i := 0; i < n; i++ {
			in = append(in, i*5%23)
		}
		ins = append(ins, in)
		if n > 20 {
			step = 7
		}
	}
	sc := pipe([]stage{s}, ins, []int{0, 1, 2}, terms, 0)
	sc.Name = fmt.Sprintf("%s on streams of 5 to %d elements, ends %s", s, hi, terms)
	sc.RaceBound = -1
	return sc
}

// huge explores stages on streams of the given lengths, in one schedule each.
func huge(ns []int, terms string, stages ...stage) *vrt.Scenario {
	var ins [][]any
	for _, n := range ns {
		var in []any
		for i := 0; i < n; i++ {
			in = append(in, i*5%(n/2+1))
		}
		ins = append(ins, in)
	}
	sc := pipe(stages, ins, []int{0, 1}, terms, 0)
	sc.Name = fmt.Sprintf("%s on streams of %v elements, ends %s", streams.Show(stages), ns, terms)
	return sc.Delays(0)
}

// both explores two pipelines that run at the same time.
func both(a, b []stage, bounds ...int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("%s and %s at the same time", streams.Show(a), streams.Show(b)), Bounds: bounds, Body: func(x *vrt.X) {
		for i, p := range [][]stage{a, b} {
			i, p := i, p
			x.Go(fmt.Sprint("user ", i+1), func() {
				st, want := streams.BuildAt(x, 10*i, i, []any{10*i + 2, 10*i + 1}, p)
				streams.Finish(x, st, 'c', want, 10*i+9)
			})
		}
		x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
	}}
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	var all []stage
	for _, n := range []int{-1, 0, 1, 2, 5} {
		all = append(all, stage{Op: 'b', N: n})
	}
	all = append(all, stage{Op: 'k'})
	for n := 0; n <= 4; n++ {
		all = append(all, stage{Op: 's', N: n}, stage{Op: 'l', N: n}, stage{Op: 't', N: n})
	}
	for n := 0; n <= 2; n++ {
		all = append(all, stage{Op: 'd', N: n}, stage{Op: 'f', N: n}, stage{Op: 'w', N: n})
	}
	all = append(all, stage{Op: 'w', N: 3}, stage{Op: 'm'}, stage{Op: 'x'}, stage{Op: 'f', N: 3})
	lists := [][]any{{}, {1}, {1, 2}, {2, 1, 2}, {1, 1, 3, 2}}
	odd := [][]any{{nil, "a", nil}, {[]any{1, 2}, 3, []any{}}, {"a", []any{"b"}}, {[]any{[]any{1, 2}, 3}, []any{[]any{}}}, {1, int64(1), "1", 1.0, "", 0, false}}
	odd = append(odd, []any{[]any{"x", "y"}}, []any{[]any{}}, []any{[]any{nil}}, []any{[]int{1, 2}, []string{"a", "b"}, []int{}, []byte("ab")},
		[]any{errors.New("an error"), map[string]int{"a": 1}, struct{ A []int }{nil}, (*int)(nil)}, []any{chan any(nil)}, []any{math.Inf(1), -0.5, 'x', true, [2]int{1, 2}})
	nonil := odd[1:]

	// one stage, every option, everything else
	r = append(r, pipe(nil, append(lists, odd...), []int{0, 1, 2, 3}, streams.Terminals, 1, -1))
	for _, s := range all {
		ls := append(append([][]any{}, lists...), odd...)
		if s.Op == 'x' {
			ls = append(append([][]any{}, lists...), nonil...)
		}
		for _, l := range ls {
			if s.Op == 'd' || len(l) < 4 || deep {
				r = append(r, pipe([]stage{s}, [][]any{l}, []int{0, 1, 2, 3}, streams.Terminals, 1, 2))
			} else {
				r = append(r, pipe([]stage{s}, [][]any{l}, []int{1}, streams.Terminals, 1))
			}
		}
		switch s.Op {
		case 'f', 'w', 'm', 'x':
			for o := 1; o <= 5; o++ {
				s.Opt = o
				r = append(r, pipe([]stage{s}, [][]any{{1, 2}, {2, 1, 2}}, []int{0}, "cn", 1))
			}
		}
	}
	// long streams
	for _, s := range all {
		r = append(r, long(s, tier, streams.Terminals))
		for n := 3; n <= 9; n += 3 {
			switch s.Op {
			case 't', 's', 'l', 'd':
				if s.N == 2 {
					s := s
					s.N = n
					r = append(r, long(s, tier, "cn"))
				}
			}
		}
	}
	// very long streams
	big := []int{127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1024, 1025, 2049, 3000}
	for _, s := range all {
		r = append(r, huge(big, "cn", s))
	}
	for _, n := range []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 3000, 1 << 40, math.MaxInt64} {
		for _, o := range []stage{{Op: 's', N: n}, {Op: 'l', N: n}, {Op: 't', N: n}, {Op: 'b', N: n}} {
			if o.Op != 'b' || n < 1<<30 {
				r = append(r, huge(append([]int{2, 5, 40}, big[6:]...), "cnlo", o))
			}
		}
	}
	for _, s := range all {
		h := huge([]int{4099, 10007, 66001}, "cn", s)
		h.Horizon = 4000000
		r = append(r, h)
	}
	seen := map[string]bool{}
	for _, n := range []int{300, 1500} {
		for _, a := range all {
			for _, o := range []stage{{Op: 'b', N: n / 2}, {Op: 's', N: n / 3}, {Op: 'l', N: n / 2}, {Op: 't', N: n / 2}, {Op: 'd', N: n / 4}, {Op: 'm'}, {Op: 'f', N: 2}} {
				for _, p := range [][]stage{{a, o}, {o, a}} {
					if h := huge([]int{n}, "c", p...); !seen[h.Name] {
						seen[h.Name] = true
						r = append(r, h)
					}
				}
			}
		}
	}
	// two stages
	for _, a := range all {
		for _, b := range all {
			if a.N == 5 || a.N == 4 || b.N == 5 || b.N == -1 {
				continue
			}
			l := [][]any{{2, 1, 2}}
			srcs, terms, bd := []int{1}, "c1", 1
			if deep {
				l, srcs, terms = [][]any{{}, {2, 1, 2}, {1, 1, 3, 2}}, []int{0, 1}, "cn1l"
			}
			r = append(r, pipe([]stage{a, b}, l, srcs, terms, bd))
			if deep {
				r = append(r, pipe([]stage{a, b}, [][]any{{1, 2}}, []int{1}, "c1", 2))
			}
		}
	}
	// three stages of different kinds
	kinds := []stage{{Op: 'b', N: 1}, {Op: 'k'}, {Op: 's', N: 1}, {Op: 'l', N: 1}, {Op: 'l', N: 2}, {Op: 't', N: 2}, {Op: 'd'}, {Op: 'f', N: 2}, {Op: 'w', N: 2}, {Op: 'm'}}
	for _, a := range kinds {
		for _, b := range kinds {
			for _, c := range kinds {
				bd := 0
				if deep {
					bd = 1
				}
				r = append(r, pipe([]stage{a, b, c}, [][]any{{2, 1, 2}}, []int{1}, "c", bd))
			}
		}
	}
	// two pipelines at the same time
	for i, a := range kinds {
		for j, b := range kinds[i:] {
			if deep || j == 0 {
				r = append(r, both([]stage{a}, []stage{b}, 0, 1))
			} else {
				r = append(r, both([]stage{a}, []stage{b}, 0))
			}
		}
	}
	return r
}
