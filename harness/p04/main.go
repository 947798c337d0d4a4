// P04: SharedMap is one map for every shard count and key set.
package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/zverif/h/lib/maps"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P04", scenarios) }

func shards(n int) *xsync.SharedMap {
	if n == 0 {
		return xsync.NewSharedMap()
	}
	return xsync.NewSharedMap(xsync.WithShardBlockSize(n))
}

func refused(c *vrt.Enum) {
	for _, n := range []int{0, -1, -2, -3, -31, -32, -100, -65536, math.MinInt32 + 1, math.MinInt64} {
		if !c.Case("shard count", n) {
			continue
		}
		func() {
			defer func() {
				if recover() == nil {
					c.Fail("shard count %d was accepted", n)
				}
			}()
			xsync.NewSharedMap(xsync.WithShardBlockSize(n))
		}()
	}
	// the last option wins
	if c.Case("two options") {
		m := xsync.NewSharedMap(xsync.WithShardBlockSize(-4), xsync.WithShardBlockSize(3))
		m.Store("x", 1)
	}
}

var manyKeys = func() []string {
	r := []string{"", " ", "a", "b", "ab", "ba", "aa", "\x00", "\x00\x00", "\xff", "\xff\xfe", "ä", "世界", strings.Repeat("k", 300), strings.Repeat("k", 301)}
	for i := 0; i < 120; i++ {
		r = append(r, fmt.Sprintf("key%d", i), string(rune(0x100+i*37)))
	}
	for b := 0; b < 256; b += 5 {
		r = append(r, "b"+string([]byte{byte(b)}))
	}
	seen := map[string]bool{}
	var u []string
	for _, k := range r {
		if !seen[k] {
			seen[k] = true
			u = append(u, k)
		}
	}
	return u
}()

func rangeAll(c *vrt.Enum, m *xsync.SharedMap, ref map[string]int, what string) {
	got := map[string]bool{}
	m.Range(func(k, v interface{}) bool {
		ks, ok := k.(string)
		if !ok || got[ks] {
			c.Fail("%s: Range visited %#v (twice: %v)", what, k, got[ks])
		}
		got[ks] = true
		if w, ok := ref[ks]; !ok || v != interface{}(w) {
			c.Fail("%s: Range gave %q=%v, want %v", what, ks, v, w)
		}
		return true
	})
	if len(got) != len(ref) {
		c.Fail("%s: Range visited %d keys of %d", what, len(got), len(ref))
	}
	for _, stop := range []int{1, 2, len(ref) / 2, len(ref) - 1} {
		if stop < 1 || stop > len(ref) {
			continue
		}
		n := 0
		m.Range(func(k, v interface{}) bool { n++; return n < stop })
		if n != stop {
			c.Fail("%s: Range made %d calls, told to stop after %d", what, n, stop)
		}
	}
}

// counts: many keys on every shard count.
func counts(deep bool) func(c *vrt.Enum) {
	return func(c *vrt.Enum) {
		var list []int
		for n := 0; n <= 70; n++ {
			list = append(list, n)
		}
		list = append(list, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097, 65535, 65536, 65537)
		if deep {
			for n := 71; n <= 300; n++ {
				list = append(list, n)
			}
			list = append(list, 1<<18, 1<<18+1)
		}
		for _, n := range list {
			for how := 0; how < 3; how++ {
				if !c.Case("shard count", n, "filled by", []string{"Store", "MStore", "LoadOrStore"}[how]) {
					continue
				}
				m := shards(n)
				ref := map[string]int{}
				data := map[string]interface{}{}
				for i, k := range manyKeys {
					if m.Has(k) {
						c.Fail("new map has %q", k)
					}
					ref[k] = i
					data[k] = i
				}
				for i, k := range manyKeys {
					switch how {
					case 0:
						m.Store(k, i)
					case 2:
						if !m.LoadOrStore(k, i) {
							c.Fail("LoadOrStore(%q) said it did not store", k)
						}
						if m.LoadOrStore(k, -1) {
							c.Fail("second LoadOrStore(%q) said it stored", k)
						}
					}
				}
				if how == 1 {
					m.MStore(data)
				}
				check := func(what string) {
					for _, k := range manyKeys {
						c.Eval()
						w, in := ref[k]
						v, ok := m.Load(k)
						if ok != in || (in && v != interface{}(w)) || (!in && v != nil) || m.Has(k) != in {
							c.Fail("%s: Load(%q)=%v,%v Has=%v, want %v,%v", what, k, v, ok, m.Has(k), w, in)
						}
						sv, sok := m.GetShard(k).Load(k)
						if sok != in || sv != v {
							c.Fail("%s: GetShard(%q).Load gave %v,%v", what, k, sv, sok)
						}
					}
					rangeAll(c, m, ref, what)
				}
				check("filled")
				for i, k := range manyKeys {
					switch i % 4 {
					case 0:
						m.Delete(k)
						delete(ref, k)
					case 1:
						v, ok := m.ComputeIfPresent(k, func(kk string, v interface{}) interface{} {
							if kk != k {
								c.Fail("ComputeIfPresent(%q) called its function with %q", k, kk)
							}
							return v.(int) + 1000
						})
						ref[k] += 1000
						if !ok || v != interface{}(ref[k]) {
							c.Fail("ComputeIfPresent(%q)=%v,%v", k, v, ok)
						}
					case 2:
						v, ok := m.ComputeIfAbsent(k, func(kk string) interface{} { c.Fail("called for present %q", kk); return nil })
						if !ok || v != interface{}(ref[k]) {
							c.Fail("ComputeIfAbsent(%q)=%v,%v", k, v, ok)
						}
					}
				}
				check("changed")
				for i, k := range manyKeys {
					if i%8 == 0 {
						v, ok := m.ComputeIfAbsent(k, func(kk string) interface{} {
							if kk != k {
								c.Fail("ComputeIfAbsent(%q) called its function with %q", k, kk)
							}
							return -7
						})
						ref[k] = -7
						if ok || v != interface{}(-7) {
							c.Fail("ComputeIfAbsent(%q)=%v,%v", k, v, ok)
						}
					}
				}
				check("added")
				m.MStore(nil)
				m.Clear()
				ref = map[string]int{}
				check("cleared")
				m.Store("again", 1)
				ref["again"] = 1
				rangeAll(c, m, ref, "after clear")
			}
		}
	}
}

// sizes: MStore, Range and Clear of any number of keys.
func sizes(c *vrt.Enum) {
	for _, sc := range []int{1, 2, 32, 256} {
		for _, n := range []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 67, 99, 100, 101, 127, 128, 129, 130, 131, 200, 255, 256, 257, 258, 259, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2049, 3001, 4097, 5003} {
			for _, before := range []int{0, 1, n / 2, n} {
				if !c.Case("shard count", sc, "MStore of", n, "keys,", before, "of them stored before") {
					continue
				}
				m := shards(sc)
				ref := map[string]int{}
				data := map[string]interface{}{}
				for i := 0; i < n; i++ {
					k := fmt.Sprint("k", i*7919%100003)
					data[k] = i
					ref[k] = i
					if i < before {
						m.Store(k, -i)
					}
				}
				m.Store("", nil)
				m.MStore(data)
				if len(data) != n {
					c.Fail("MStore changed its argument")
				}
				for k, w := range ref {
					c.Eval()
					if v, ok := m.Load(k); !ok || v != interface{}(w) {
						c.Fail("Load(%q) gives %v, %v, want %v", k, v, ok, w)
					}
				}
				if v, ok := m.Load(""); !ok || v != nil {
					c.Fail("the nil value of another key is now %v, %v", v, ok)
				}
				m.Delete("")
				rangeAll(c, m, ref, "filled")
				data["more"] = 1
				rangeAll(c, m, ref, "the argument of MStore changed afterwards")
				m.Clear()
				rangeAll(c, m, map[string]int{}, "cleared")
			}
		}
	}
}

// sequences: all operation sequences on three keys, for several shard counts.
func sequences(depth int) func(c *vrt.Enum) {
	return func(c *vrt.Enum) {
		alpha := []string{"Sa", "Sb", "M", "Oa", "Xa", "Xb", "C", "Pa", "Ab", "La", "H", "V", "Na", "Bb", "Qa"}
		n := 1
		for i := 0; i < depth; i++ {
			n *= len(alpha)
		}
		word := make([]string, depth)
		for _, sc := range []int{1, 2, 3, 32} {
			for w := 0; w < n; w++ {
				v := w
				for i := range word {
					word[i] = alpha[v%len(alpha)]
					v /= len(alpha)
				}
				if !c.Case("shard count", sc, word) {
					continue
				}
				m := shards(sc)
				a := maps.Shared{P: m}
				var s maps.State
				for i, op := range word {
					tag := fmt.Sprint(i)
					c.Eval()
					switch op {
					case "M":
						m.MStore(map[string]interface{}{"a": tag, "c": nil})
						s[0], s[2] = tag, "nil"
					case "H":
						for j, k := range []string{"a", "b", "c", "d"} {
							if m.Has(k) != (s[j] != "") {
								c.Fail("step %d: Has(%s)=%v in %v", i, k, m.Has(k), s)
							}
						}
					case "V":
						got := maps.State{}
						m.Range(func(k, v interface{}) bool {
							j := k.(string)[0] - 'a'
							if got[j] != "" {
								c.Fail("step %d: Range visited %v twice", i, k)
							}
							got[j] = maps.Name(v)
							return true
						})
						if got != s {
							c.Fail("step %d: Range gave %v, want %v", i, got, s)
						}
					default:
						o := &vrt.OpRec{Args: []any{op, tag}, End: 1}
						o.Ret = maps.Do(nil, a, op, tag)
						n := maps.Step(s, o)
						if n == nil {
							c.Fail("step %d (%s) returned %q in state %v", i, op, o.Ret, s)
						}
						s = n[0]
					}
				}
			}
		}
	}
}

func setups() []string {
	var r []string
	for k := range maps.Setups {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func group(sc int, setup string, first []string, others [][][]string, bounds []int, name string) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("%s shards=%d %s %s", name, sc, setup, strings.Join(first, ",")), Bounds: bounds, MapOrders: 2, Body: func(x *vrt.X) {
		progs := [][]string{first}
		for _, o := range others {
			progs = append(progs, o[x.Choose(len(o))])
		}
		maps.ConcurrentPerKey(x, maps.Shared{P: shards(sc)}, strings.ReplaceAll(maps.Setups[setup], "D", "X"), progs)
	}}
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	r := vrt.EnumScenarios("refused shard counts", 1, refused)
	r = append(r, vrt.EnumScenarios("shard counts", 8, counts(deep))...)
	r = append(r, vrt.EnumScenarios("sizes", 8, sizes)...)
	r = append(r, vrt.EnumScenarios("values of every kind", 4, maps.OddValues(func() maps.M { return maps.Shared{P: xsync.NewSharedMap()} }, true))...)
	d := 4
	if deep {
		d = 5
	}
	r = append(r, vrt.EnumScenarios(fmt.Sprintf("sequences of %d operations", d), 8, sequences(d))...)
	alpha := []string{"La", "Sa", "Oa", "Xa", "C", "Sb", "Pa", "Aa", "Lb", "Ab", "R", "Xb"}
	mixed := []string{"Sa", "Pa", "Xa", "La", "C", "Oa", "Sb", "Aa", "Xb", "R", "Lb", "Ab", "Sc"}
	for _, sc := range []int{1, 2, 3, 32} {
		for _, s := range setups() {
			if !deep && s != "promoted" && s != "both" && s != "expunged" && s != "empty" {
				continue
			}
			for _, sz := range [][2]int{{3, 3}, {5, 2}, {3, 6}} {
				sc, s, sz := sc, s, sz
				d := 1
				if sc == 32 {
					d = 0
				}
				if deep {
					d++
				}
				g := (&vrt.Scenario{Name: fmt.Sprintf("%d threads, %d operations each, shards=%d %s", sz[0], sz[1], sc, s), Body: func(x *vrt.X) {
					n := len(mixed)
					maps.ConcurrentPerKey(x, maps.Shared{P: shards(sc)}, strings.ReplaceAll(maps.Setups[s], "D", "X"), maps.Mixed(mixed, sz[0], sz[1], 1+x.Choose(n-1), 1+x.Choose(3), x.Choose(n)))
				}}).Delays(0, d)
				g.MapOrders = 2
				r = append(r, g)
			}
		}
	}
	one := maps.Words(alpha, 1)
	two := maps.Words(alpha, 2)
	for _, sc := range []int{1, 2, 32} {
		for _, s := range setups() {
			if !deep && sc != 1 && s != "promoted" && s != "both" && s != "expunged" {
				continue
			}
			for _, f := range two {
				b := []int{2, -1}
				whole := strings.ContainsAny(strings.Join(f, ""), "CR")
				if !deep && whole {
					b = []int{2}
				}
				g := group(sc, s, f, [][][]string{one}, b, "2 threads")
				if !deep && len(f) > 1 {
					g.RaceBound = -1
				}
				if sc == 32 && !deep && whole && len(f) > 1 {
					continue
				}
				r = append(r, g)
			}
			if deep {
				for _, f := range one {
					r = append(r, group(sc, s, f, [][][]string{one, one}, []int{2, 3}, "3 threads"))
				}
			}
		}
	}
	return r
}
