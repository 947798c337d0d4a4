// P03: Map.Range visits each key once and misses no stable key.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/zverif/h/lib/maps"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P03", scenarios) }

func setups() []string {
	var r []string
	for k := range maps.Setups {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type rng struct {
	limit int
	step  bool
}

func (r rng) String() string { return fmt.Sprintf("range(limit %d, step %v)", r.limit, r.step) }

// group: thread 0 runs Range (twice if again), the others run programs.
func group(setup string, r rng, again bool, others [][][]string, bounds []int, extra string) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("%s %v%s %s", setup, r, map[bool]string{true: " twice", false: ""}[again], extra), Bounds: bounds, MapOrders: 3, Body: func(x *vrt.X) {
		var progs [][]string
		for _, o := range others {
			progs = append(progs, o[x.Choose(len(o))])
		}
		m := maps.Plain{P: new(xsync.Map)}
		var init maps.State
		for i, op := range strings.Fields(maps.Setups[setup]) {
			tag := fmt.Sprintf("i%d", i)
			maps.Do(x, m, op, tag)
			init = maps.Apply(init, op, tag)
		}
		x.Go("range", func() {
			maps.RangeOp(x, m, r.limit, r.step)
			if again {
				maps.RangeOp(x, m, r.limit, r.step)
			}
		})
		for ti, p := range progs {
			ti, p := ti, p
			x.Go(fmt.Sprintf("t%d", ti), func() {
				for i, op := range p {
					op := op
					tag := fmt.Sprintf("t%d.%d", ti, i)
					if op == "G" {
						maps.RangeOp(x, m, 0, false)
						continue
					}
					x.Call(op, func() any { return maps.Do(x, m, op, tag) }, op, tag)
				}
			})
		}
		x.Wait()
		maps.RangeOp(x, m, 0, false)
		x.AtEnd(func(e *vrt.End) {
			e.NoBlocked()
			if !e.Failed() {
				maps.CheckRanges(e, init)
			}
		})
	}}
}

// inside: operations called from inside Range's function, by the same goroutine.
func inside(c *vrt.Enum) {
	ops := []string{"La", "Sa", "Oa", "Da", "Xa", "C", "Sb", "Db", "Sc", "Sd", "Pa", "Ab", "R"}
	for _, setup := range setups() {
		for _, op1 := range ops {
			for _, op2 := range ops {
				for limit := 0; limit <= 2; limit++ {
					if !c.Case(setup, op1, op2, limit) {
						continue
					}
					m := maps.Plain{P: new(xsync.Map)}
					var s maps.State
					for i, op := range strings.Fields(maps.Setups[setup]) {
						tag := fmt.Sprintf("i%d", i)
						maps.Do(nil, m, op, tag)
						s = maps.Apply(s, op, tag)
					}
					// values and absence each key went through during the call
					had := [4]map[string]bool{}
					note := func() {
						for i := range s {
							if had[i] == nil {
								had[i] = map[string]bool{}
							}
							had[i][s[i]] = true
						}
					}
					note()
					seen := map[string]string{}
					n := 0
					m.Range(func(k, v any) bool {
						if limit > 0 && n == limit {
							c.Fail("called again after returning false")
						}
						ks := k.(string)
						if _, dup := seen[ks]; dup {
							c.Fail("key %s visited twice", ks)
						}
						seen[ks] = maps.Name(v)
						if !had[ks[0]-'a'][maps.Name(v)] {
							c.Fail("key %s visited with value %v, it had only %v during the call", ks, v, had[ks[0]-'a'])
						}
						op := op1
						if n > 0 {
							op = op2
						}
						tag := fmt.Sprintf("r%d", n)
						n++
						maps.Do(nil, m, op, tag)
						s = maps.Apply(s, op, tag)
						note()
						return limit == 0 || n < limit
					})
					if limit > 0 && n >= limit {
						continue
					}
					for i := range s {
						if _, ok := seen[string(rune('a'+i))]; !ok && !had[i][""] {
							c.Fail("stable key %c not visited", 'a'+i)
						}
					}
				}
			}
		}
	}
}

func large(c *vrt.Enum) {
	for _, n := range []int{0, 1, 2, 8, 9, 50, 200} {
		for mode := 0; mode < 6; mode++ {
			for limit := 0; limit <= n+1; limit++ {
				if limit > 20 && limit < n-1 {
					continue
				}
				if !c.Case(n, mode, limit) {
					continue
				}
				m := new(xsync.Map)
				want := map[int]bool{}
				for i := 0; i < n; i++ {
					m.Store(i, -i)
					want[i] = true
					if mode >= 1 && i == n/2 {
						m.Range(func(k, v interface{}) bool { return true })
					}
					if mode >= 2 && i%3 == 0 {
						m.Delete(i / 2)
						delete(want, i/2)
					}
					if mode == 4 {
						for j := 0; j <= i; j++ {
							m.Load(j)
						}
					}
				}
				if mode == 5 {
					m.Clear()
					want = map[int]bool{}
				}
				got := map[int]bool{}
				calls := 0
				m.Range(func(k, v interface{}) bool {
					calls++
					if got[k.(int)] || !want[k.(int)] || v.(int) != -k.(int) {
						c.Fail("visited %v=%v", k, v)
					}
					got[k.(int)] = true
					return calls != limit
				})
				w := len(want)
				if limit > 0 && limit < w {
					w = limit
				}
				if calls != w {
					c.Fail("function called %d times, want %d", calls, w)
				}
			}
		}
	}
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	r := vrt.EnumScenarios("operations inside the function", 2, inside)
	r = append(r, vrt.EnumScenarios("large", 2, large)...)
	mixed := []string{"Sa", "Da", "Ob", "G", "C", "Sc", "Lb", "Db", "Pa", "Sd", "Ab"}
	for _, s := range setups() {
		for _, sz := range [][2]int{{2, 4}, {4, 2}, {2, 8}} {
			for _, rg := range []rng{{0, true}, {2, false}} {
				d := 1
				if deep {
					d = 2
				}
				if !deep && rg.limit > 0 && s != "both" && s != "expunged" && s != "shadow" {
					continue
				}
				var others [][][]string
				for t := 0; t < sz[0]; t++ {
					var words [][]string
					for a := 1; a <= 4; a++ {
						for c := 0; c < len(mixed); c += 3 {
							words = append(words, maps.Mixed(mixed, t+1, sz[1], a, 1+t, c)[t])
						}
					}
					if t > 1 {
						words = words[:6]
					}
					if t > 2 {
						words = words[:1]
					}
					others = append(others, words)
				}
				g := group(s, rg, true, others, nil, fmt.Sprintf("%d threads, %d operations each", sz[0], sz[1])).Delays(0, d)
				if sz[0]*sz[1] > 8 || sz[0] > 2 || deep {
					g.Bounds = []int{0, d - 1}
				}
				r = append(r, g)
			}
		}
	}
	alpha := []string{"Sa", "Oa", "Da", "C", "Lb", "Sb", "Db", "Sc", "Pa", "Ab", "G"}
	one := maps.Words(alpha, 1)
	two := maps.Words(alpha, 2)
	for _, s := range setups() {
		for _, rg := range []rng{{0, false}, {0, true}, {1, false}, {1, true}} {
			for i := 0; i < len(two); i += 11 {
				j := i + 11
				if j > len(two) {
					j = len(two)
				}
				b := []int{2, -1}
				if !deep && rg.step {
					b = []int{2}
				}
				g := group(s, rg, false, [][][]string{two[i:j]}, b, fmt.Sprintf("2 threads #%d", i/11))
				if !deep && (rg.limit > 0 || rg.step) {
					g.RaceBound = -1
				}
				r = append(r, g)
			}
			if rg.limit == 0 {
				for _, op := range one {
					g := group(s, rg, false, [][][]string{{op}, one}, []int{2, -1}, "3 threads "+op[0])
					if !deep {
						if rg.step || op[0] == "G" {
							continue
						}
						g.Bounds, g.RaceBound, g.MapOrders = []int{2}, -1, 2
					}
					r = append(r, g)
				}
				if deep {
					r = append(r, group(s, rg, true, [][][]string{two}, []int{2, -1}, "2 threads"))
					r = append(r, group(s, rg, false, [][][]string{two, one}, []int{2, 3}, "3 threads, 2+1 operations"))
				}
			}
		}
	}
	return r
}
