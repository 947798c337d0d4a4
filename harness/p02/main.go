// P02: ComputeIfAbsent and ComputeIfPresent update a key atomically.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/zverif/h/lib/maps"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P02", scenarios) }

func setups() []string {
	var r []string
	for k := range maps.Setups {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func newMap(kind string) maps.M {
	switch kind {
	case "map":
		return maps.Plain{P: new(xsync.Map)}
	case "shared1":
		return maps.Shared{P: xsync.NewSharedMap(xsync.WithShardBlockSize(1))}
	}
	return maps.Shared{P: xsync.NewSharedMap()}
}

func supported(kind string, op string) bool { return kind == "map" || op[0] != 'D' }

func group(kind, name, setup string, first []string, others [][][]string, bounds []int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("%s %s %s %s", kind, name, setup, strings.Join(first, ",")), Bounds: bounds, Body: func(x *vrt.X) {
		progs := [][]string{first}
		for _, o := range others {
			progs = append(progs, o[x.Choose(len(o))])
		}
		for _, p := range progs {
			for i, op := range p {
				if !supported(kind, op) {
					p[i] = "X" + op[1:]
				}
			}
		}
		su := maps.Setups[setup]
		if kind != "map" {
			su = strings.ReplaceAll(su, "D", "X")
		}
		if kind == "map" {
			maps.Concurrent(x, newMap(kind), su, progs)
		} else {
			maps.ConcurrentPerKey(x, newMap(kind), su, progs)
		}
	}}
}

// sequential: every sequence of operations with computes against a plain map.
func sequential(kind string, depth int, alpha []string) func(c *vrt.Enum) {
	return func(c *vrt.Enum) {
		n := 1
		for i := 0; i < depth; i++ {
			n *= len(alpha)
		}
		word := make([]string, depth)
		for w := 0; w < n; w++ {
			v := w
			for i := range word {
				word[i] = alpha[v%len(alpha)]
				v /= len(alpha)
			}
			if !c.Case(kind, word) {
				continue
			}
			m := newMap(kind)
			var s maps.State
			for i, op := range word {
				tag := fmt.Sprint(i)
				c.Eval()
				o := &vrt.OpRec{Args: []any{op, tag}, End: 1}
				calls := 0
				switch op[0] {
				case 'P':
					var v any
					var ok bool
					present := s[op[1]-'a'] != ""
					v, ok = m.ComputeIfPresent(op[1:], func(k, v any) any {
						calls++
						if k != any(op[1:]) || maps.Name(v) != s[op[1]-'a'] {
							c.Fail("step %d: function called with (%v, %v) in state %v", i, k, v, s)
						}
						return maps.Name(v) + "+" + tag
					})
					if present != (calls == 1) || calls > 1 {
						c.Fail("step %d: function called %d times, key present: %v", i, calls, present)
					}
					o.Ret = "absent"
					if ok {
						o.Ret = "=" + maps.Name(v)
					} else if v != nil {
						c.Fail("step %d: ComputeIfPresent of an absent key returned %v", i, v)
					}
				case 'A':
					present := s[op[1]-'a'] != ""
					v, loaded := m.ComputeIfAbsent(op[1:], func(k any) any {
						calls++
						if k != any(op[1:]) {
							c.Fail("step %d: function called with key %v", i, k)
						}
						return tag
					})
					if present == (calls == 1) || calls > 1 {
						c.Fail("step %d: function called %d times, key present: %v", i, calls, present)
					}
					o.Ret = map[bool]string{true: "loaded ", false: "stored "}[loaded] + maps.Name(v)
				default:
					o.Ret = maps.Do(nil, m, op, tag)
				}
				n := maps.Step(s, o)
				if n == nil {
					c.Fail("step %d (%s) returned %q in state %v", i, op, o.Ret, s)
				}
				s = n[0]
			}
			for j, want := range s[:3] {
				v, ok := m.Load(string(rune('a' + j)))
				if ok != (want != "") || (ok && maps.Name(v) != want) {
					c.Fail("at the end key %c is %v,%v, want %q", 'a'+j, v, ok, want)
				}
			}
		}
	}
}

// nilResults: functions that return nil store nil.
func nilResults(c *vrt.Enum) {
	for _, kind := range []string{"map", "shared1", "shared32"} {
		for _, setup := range setups() {
			if !c.Case(kind, setup) {
				continue
			}
			m := newMap(kind)
			var s maps.State
			for i, op := range strings.Fields(maps.Setups[setup]) {
				if kind != "map" && op[0] == 'D' {
					op = "X" + op[1:]
				}
				maps.Do(nil, m, op, fmt.Sprint(i))
				s = maps.Apply(s, op, fmt.Sprint(i))
			}
			v, ok := m.ComputeIfPresent("a", func(k, v any) any { return nil })
			if v != nil || ok != (s[0] != "") {
				c.Fail("ComputeIfPresent -> nil returned %v,%v in %v", v, ok, s)
			}
			if v, ok := m.Load("a"); v != nil || ok != (s[0] != "") {
				c.Fail("then Load gave %v,%v", v, ok)
			}
			v, ok = m.ComputeIfAbsent("c", func(k any) any { return nil })
			if ok != (s[2] != "") || (ok && maps.Name(v) != s[2]) || (!ok && v != nil) {
				c.Fail("ComputeIfAbsent -> nil returned %v,%v in %v", v, ok, s)
			}
			if _, ok := m.Load("c"); !ok {
				c.Fail("ComputeIfAbsent -> nil left the key absent")
			}
		}
	}
}

// large: many keys, each through its own sequence of computes and other operations.
func large(c *vrt.Enum) {
	for _, kind := range []string{"map", "shared1", "shared32"} {
		for _, n := range []int{5, 20, 64, 200} {
			for st := 1; st <= 7; st++ {
				for reads := 0; reads <= 2; reads++ {
					if !c.Case(kind, n, st, reads) {
						continue
					}
					m := newMap(kind)
					ref := map[string]int{}
					for i := 0; i < 4*n; i++ {
						k := fmt.Sprint("k", i*st%n)
						w, in := ref[k]
						switch (i/3 + i*st) % 5 {
						case 0, 3:
							v, ok := m.ComputeIfAbsent(k, func(kk any) any { return i })
							if !in {
								ref[k], w = i, i
							}
							if ok != in || v != any(w) {
								c.Fail("step %d: ComputeIfAbsent(%s)=%v,%v, was present: %v", i, k, v, ok, in)
							}
						case 1, 4:
							v, ok := m.ComputeIfPresent(k, func(kk, v any) any {
								if v != any(w) {
									c.Fail("step %d: ComputeIfPresent(%s) called with %v, want %v", i, k, v, w)
								}
								return v.(int) + 1000
							})
							if in {
								ref[k] = w + 1000
							}
							if ok != in || in && v != any(w+1000) || !in && v != nil {
								c.Fail("step %d: ComputeIfPresent(%s)=%v,%v, was present: %v", i, k, v, ok, in)
							}
						case 2:
							m.Delete(k)
							delete(ref, k)
						}
						for j := 0; j < reads*3; j++ {
							k := fmt.Sprint("k", (i+j*st)%n)
							v, ok := m.Load(k)
							w, in := ref[k]
							if ok != in || in && v != any(w) {
								c.Fail("step %d: Load(%s)=%v,%v, want %v,%v", i, k, v, ok, w, in)
							}
						}
					}
					for i := 0; i < n; i++ {
						k := fmt.Sprint("k", i)
						v, ok := m.Load(k)
						w, in := ref[k]
						if ok != in || in && v != any(w) {
							c.Fail("at the end Load(%s)=%v,%v, want %v,%v", k, v, ok, w, in)
						}
					}
				}
			}
		}
	}
}

var alphaC = []string{"Pa", "Aa", "pa", "aa"}
var alpha1 = []string{"Pa", "Aa", "pa", "aa", "Sa", "Oa", "Da", "C", "La", "R", "Sc", "Lb"}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	d := 5
	if deep {
		d = 6
	}
	for _, kind := range []string{"map", "shared1", "shared32"} {
		al := []string{"Pa", "Aa", "Xa", "Sa", "Sb", "Lc", "R", "C", "Ab"}
		r = append(r, vrt.EnumScenarios(fmt.Sprintf("%s sequences of %d operations", kind, d), 4, sequential(kind, d, al))...)
		r = append(r, vrt.EnumScenarios(fmt.Sprintf("%s sequences of %d operations with panicking functions", kind, d), 4, sequential(kind, d, []string{"Ya", "Za", "Pa", "Aa", "Xa", "Sa", "Sb", "Lc", "C"}))...)
	}
	r = append(r, vrt.EnumScenarios("nil results", 1, nilResults)...)
	for _, kind := range []string{"map", "shared1"} {
		kind := kind
		r = append(r, vrt.EnumScenarios(kind+" values of every kind", 4, maps.OddValues(func() maps.M { return newMap(kind) }, kind != "map"))...)
	}
	two := [][]string{}
	for _, w := range maps.Words(alpha1, 2) {
		for _, op := range w {
			if strings.ContainsAny(op, "PApa") && op[0] != 'S' {
				two = append(two, w)
				break
			}
		}
	}
	one := maps.Words(append([]string{"Qa", "Ba", "Ya", "Za"}, alpha1...), 1)
	comp := maps.Words(alphaC, 1)
	mixed := []string{"Pa", "Aa", "Da", "pa", "Sa", "aa", "Pb", "La", "R", "Oa", "Ab", "C", "Qa", "Ya", "Zb"}
	for _, kind := range []string{"map", "shared1"} {
		for _, s := range setups() {
			for _, sz := range [][2]int{{3, 3}, {6, 2}, {3, 8}} {
				kind, s, sz := kind, s, sz
				d := 1
				if deep {
					d = 2
				}
				if kind != "map" && !deep && s != "both" && s != "expunged" && s != "empty" {
					d = 0
				}
				r = append(r, (&vrt.Scenario{Name: fmt.Sprintf("%s %d threads, %d operations each %s", kind, sz[0], sz[1], s), Body: func(x *vrt.X) {
					n := len(mixed)
					progs := maps.Mixed(mixed, sz[0], sz[1], 1+x.Choose(n-1), 1+x.Choose(3), x.Choose(n))
					su := maps.Setups[s]
					if kind != "map" {
						su = strings.ReplaceAll(su, "D", "X")
						for _, p := range progs {
							for i, op := range p {
								if !supported(kind, op) {
									p[i] = "X" + op[1:]
								}
							}
						}
					}
					if kind == "map" {
						maps.Concurrent(x, newMap(kind), su, progs)
					} else {
						maps.ConcurrentPerKey(x, newMap(kind), su, progs)
					}
				}}).Delays(0, d))
			}
		}
	}
	r = append(r, vrt.EnumScenarios("large", 2, large)...)
	for _, s := range setups() {
		for _, f := range two {
			r = append(r, group("map", "2 threads", s, f, [][][]string{one}, []int{-1}))
		}
		for _, f := range []string{"Ya", "Za", "ya", "za"} {
			for _, g := range []string{"Pa", "Aa", "Sb", "Da", "La"} {
				r = append(r, group("map", "2 threads", s, []string{f, g}, [][][]string{one}, []int{-1}))
				r = append(r, group("shared1", "2 threads", s, []string{f, g}, [][][]string{one}, []int{1}))
			}
		}
		for _, f := range maps.Words([]string{"Pa", "Aa", "pa", "aa"}, 1) {
			g := group("map", "3 threads", s, f, [][][]string{comp, one}, []int{2, -1})
			if !deep {
				g.Bounds, g.RaceBound = []int{2}, -1
			}
			r = append(r, g)
		}
		for _, kind := range []string{"shared1", "shared32"} {
			for _, f := range maps.Words([]string{"Pa", "Aa", "pa"}, 1) {
				r = append(r, group(kind, "2 threads", s, f, [][][]string{maps.Words([]string{"Pa", "Aa", "Sa", "Oa", "Xa", "C", "La"}, 1)}, []int{-1}))
			}
		}
		if deep {
			for _, f := range two {
				r = append(r, group("map", "2 threads, 2 operations each", s, f, [][][]string{two}, []int{2, -1}))
				r = append(r, group("map", "3 threads, 2+1+1 operations", s, f, [][][]string{comp, one}, []int{2, 3}))
			}
		}
	}
	return r
}
