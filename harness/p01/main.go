// P01: the concurrent Map is linearizable and free of data races.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/zverif/h/lib/maps"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P01", scenarios) }

func newMap() maps.M { return maps.Plain{P: new(xsync.Map)} }

var alphaA = []string{"La", "Sa", "Oa", "Da", "Xa", "C", "Na"}
var alpha2 = []string{"La", "Sa", "Oa", "Da", "C", "Lb", "Sb", "Db", "Lc", "R"}

func setups() []string {
	var r []string
	for k := range maps.Setups {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// group explores, in one scenario, the program first against every choice of the others.
func group(name, setup string, first []string, others [][][]string, bounds []int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("%s %s %s", name, setup, strings.Join(first, ",")), Bounds: bounds, Body: func(x *vrt.X) {
		progs := [][]string{first}
		for _, o := range others {
			progs = append(progs, o[x.Choose(len(o))])
		}
		maps.Concurrent(x, newMap(), maps.Setups[setup], progs)
	}}
}

// sequential checks every operation sequence to a depth against a plain map.
func sequential(depth int, alpha []string) func(c *vrt.Enum) {
	return func(c *vrt.Enum) {
		n := 1
		for i := 0; i < depth; i++ {
			n *= len(alpha)
		}
		word := make([]string, depth)
		for w := 0; w < n; w++ {
			v := w
			for i := range word {
				word[i] = alpha[v%len(alpha)]
				v /= len(alpha)
			}
			if !c.Case(word) {
				continue
			}
			m := newMap()
			var s maps.State
			for i, op := range word {
				tag := fmt.Sprint(i)
				c.Eval()
				o := &vrt.OpRec{Args: []any{op, tag}, End: 1}
				if op == "V" {
					got := map[string]string{}
					m.Range(func(k, v any) bool {
						if _, dup := got[k.(string)]; dup {
							c.Fail("Range visited %v twice at step %d", k, i)
						}
						got[k.(string)] = maps.Name(v)
						return true
					})
					for j, v := range s {
						k := string(rune('a' + j))
						if g, ok := got[k]; (v != "") != ok || g != v {
							c.Fail("step %d: Range gave %v, want state %v", i, got, s)
						}
					}
					continue
				}
				o.Ret = maps.Do(nil, m, op, tag)
				n := maps.Step(s, o)
				if n == nil {
					c.Fail("step %d (%s) returned %q in state %v", i, op, o.Ret, s)
				}
				s = n[0]
			}
		}
	}
}

// keys checks keys of every comparable kind, alone and together.
func keys(c *vrt.Enum) {
	type st struct {
		a int
		b string
	}
	p := new(int)
	ks := []any{nil, 0, int8(0), uint(0), "", "0", 0.0, false, st{}, st{1, "x"}, [2]int{1, 2}, p, new(int), 'a', complex(0, 1), error(nil)}
	for i, k1 := range ks {
		for j, k2 := range ks {
			for mode := 0; mode < 4; mode++ {
				if !c.Case(i, j, mode) {
					continue
				}
				m := new(xsync.Map)
				ref := map[any]any{}
				put := func(k, v any) { m.Store(k, v); ref[k] = v }
				put(k1, 1)
				if mode&1 != 0 {
					m.Range(func(k, v interface{}) bool { return true })
				}
				put(k2, 2)
				if mode&2 != 0 {
					m.Delete(k1)
					delete(ref, k1)
				}
				for _, k := range ks {
					v, ok := m.Load(k)
					w, rok := ref[k]
					if v != w || ok != rok {
						c.Fail("Load(%#v) = %v,%v, want %v,%v", k, v, ok, w, rok)
					}
				}
			}
		}
	}
}

// large checks maps of many keys through promotions and deletions.
func large(c *vrt.Enum) {
	for _, n := range []int{10, 33, 100, 300} {
		for del := 1; del <= 5; del++ {
			for reads := 0; reads <= 3; reads++ {
				if !c.Case(n, del, reads) {
					continue
				}
				m := new(xsync.Map)
				ref := map[int]int{}
				for i := 0; i < n; i++ {
					m.Store(i, i)
					ref[i] = i
					if reads > 0 && i%reads == 0 {
						for k := 0; k <= i; k += 3 {
							v, ok := m.Load(k)
							if w, rok := ref[k]; ok != rok || (ok && v != any(w)) {
								c.Fail("Load(%d)=%v,%v want %v,%v", k, v, ok, w, rok)
							}
						}
					}
					if i%del == 0 {
						v, ok := m.LoadAndDelete(i / 2)
						w, rok := ref[i/2]
						if ok != rok || (ok && v != any(w)) {
							c.Fail("LoadAndDelete(%d)=%v,%v want %v,%v", i/2, v, ok, w, rok)
						}
						delete(ref, i/2)
					}
					if i%7 == 0 {
						v, ok := m.LoadOrStore(i/3, -i)
						w, rok := ref[i/3]
						if !rok {
							ref[i/3] = -i
							w = -i
						}
						if ok != rok || v != any(w) {
							c.Fail("LoadOrStore(%d)=%v,%v want %v,%v", i/3, v, ok, w, rok)
						}
					}
				}
				got := 0
				m.Range(func(k, v interface{}) bool {
					got++
					if w, ok := ref[k.(int)]; !ok || w != v.(int) {
						c.Fail("Range gave %v=%v", k, v)
					}
					return true
				})
				if got != len(ref) {
					c.Fail("Range visited %d keys of %d", got, len(ref))
				}
				m.Clear()
				m.Range(func(k, v interface{}) bool { c.Fail("key %v after Clear", k); return true })
				for i := 0; i < n; i++ {
					if v, ok := m.Load(i); ok {
						c.Fail("Load(%d)=%v after Clear", i, v)
					}
				}
			}
		}
	}
}

// far is the delay bound for programs of that size.
func far(deep bool, sz [2]int) int {
	d := 1
	if deep && sz[0]*sz[1] <= 12 {
		d++
	}
	if deep {
		d++
	}
	return d
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	d := 6
	if deep {
		d = 7
	}
	r = append(r, vrt.EnumScenarios("sequences of 3 operations", 1, sequential(3, append([]string{"V", "Lb", "Sb", "Db", "Lc", "Sc"}, alphaA...)))...)
	r = append(r, vrt.EnumScenarios(fmt.Sprintf("sequences of %d operations", d), 8, sequential(d, []string{"Sa", "Oa", "Da", "La", "Sb", "Db", "Lc", "V", "C"}))...)
	r = append(r, vrt.EnumScenarios("keys", 1, keys)...)
	r = append(r, vrt.EnumScenarios("values of every kind", 4, maps.OddValues(newMap, false))...)
	r = append(r, vrt.EnumScenarios("large", 2, large)...)
	for _, s := range setups() {
		for _, sz := range [][2]int{{3, 3}, {4, 2}, {6, 2}, {3, 8}, {8, 3}} {
			s, sz := s, sz
			r = append(r, (&vrt.Scenario{Name: fmt.Sprintf("%d threads, %d operations each %s", sz[0], sz[1], s), Body: func(x *vrt.X) {
				n := len(alpha2)
				maps.Concurrent(x, newMap(), maps.Setups[s], maps.Mixed(alpha2, sz[0], sz[1], 1+x.Choose(n-1), 1+x.Choose(3), x.Choose(n)))
			}}).Delays(0, far(deep, sz)))
		}
	}
	one := maps.Words(alphaA, 1)
	one2 := maps.Words(alpha2, 1)
	two2 := maps.Words(alpha2, 2)
	for _, s := range setups() {
		for _, f := range two2 {
			r = append(r, group("2 threads", s, f, [][][]string{one2}, []int{-1}))
		}
		for _, f := range one2 {
			g := group("3 threads", s, f, [][][]string{one2, one}, []int{2, -1})
			if !deep {
				if f[0] == "R" {
					continue
				}
				g.Bounds, g.RaceBound = []int{2}, -1
			}
			r = append(r, g)
		}
		if deep {
			for _, f := range two2 {
				r = append(r, group("2 threads, 2 operations each", s, f, [][][]string{two2}, []int{2, -1}))
				r = append(r, group("3 threads, 2+1+1 operations", s, f, [][][]string{one2, one}, []int{2, 3}))
			}
		}
	}
	return r
}
