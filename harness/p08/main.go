// P08: Ring returns the last n added values in order, atomically.
package main

import (
	"fmt"
	"math"
	"reflect"
	"unsafe"

	"github.com/chenquan/go-pkg/xring"
	"github.com/chenquan/go-pkg/zverif/lin"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P08", scenarios) }

func refuse(c *vrt.Enum, n int) {
	if !c.Case(n) {
		return
	}
	defer func() {
		if recover() == nil {
			c.Fail("NewRing(%d) was accepted", n)
		}
	}()
	xring.NewRing(n)
}

func same(got []interface{}, want []int) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != interface{}(want[i]) {
			return false
		}
	}
	return true
}

func last(a []int, n int) []int {
	if len(a) > n {
		return a[len(a)-n:]
	}
	return a
}

// take checks one Take, twice, and spoils the slice it returned.
func take(c *vrt.Enum, r *xring.Ring, want []int) {
	c.Eval()
	g1 := r.Take()
	if !same(g1, want) {
		c.Fail("Take returned %v, want %v", g1, want)
	}
	for i := range g1 {
		g1[i] = "spoiled"
	}
	_ = append(g1, "more")
	if g2 := r.Take(); !same(g2, want) {
		c.Fail("second Take returned %v, want %v (the caller owns the first slice)", g2, want)
	}
}

// count is the field of the Ring that has counted every Add so far, if it has exactly one integer field and
// that holds after each of the first Adds.
func count(r *xring.Ring) (reflect.Value, bool) {
	v := reflect.ValueOf(r).Elem()
	found := reflect.Value{}
	n := 0
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.CanInt() || f.CanUint() {
			found = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			n++
		}
	}
	return found, n == 1
}

func is(v reflect.Value, n int) bool {
	if v.CanInt() {
		return v.Int() == int64(n)
	}
	return v.Uint() == uint64(n)
}

// ages checks rings that have taken billions of values: the state a Ring is in after that many Adds is set up
// directly when its only number is seen to count the Adds (otherwise there is nothing to check here).
func ages(c *vrt.Enum) {
	for _, n := range []int{1, 2, 3, 5, 7, 10, 64, 100} {
		list := []int{1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e12, 1e15, 1e18}
		for e := uint(5); e < 63; e++ {
			list = append(list, 1<<e)
		}
		for _, age := range list {
			if !c.Case("size", n, "after", age, "values") {
				continue
			}
			r := xring.NewRing(n)
			f, ok := count(r)
			i := 0
			var hist []int
			for ; ok && i < 4*n+3; i++ {
				if ok = is(f, i); ok {
					r.Add(i)
					hist = append(hist, i)
				}
			}
			to := age - 2*n
			to -= (to%n - i%n + n) % n
			if !ok || to <= i || f.CanInt() && f.OverflowInt(int64(to)) || f.CanUint() && f.OverflowUint(uint64(to)) {
				continue
			}
			if f.CanInt() {
				f.SetInt(int64(to))
			} else {
				f.SetUint(uint64(to))
			}
			for k := 0; k < 5*n; k++ {
				take(c, r, last(hist, n))
				r.Add(i)
				hist = append(hist, i)
				i++
			}
			take(c, r, last(hist, n))
		}
	}
}

func sequential(deep bool) func(c *vrt.Enum) {
	return func(c *vrt.Enum) {
		for _, n := range []int{0, -1, -2, -3, -100, math.MinInt32, math.MinInt64} {
			refuse(c, n)
		}
		sizes := []int{}
		for n := 1; n <= 40; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000)
		if deep {
			sizes = append(sizes, 1023, 1024, 1025, 2500)
		}
		for _, n := range sizes {
			for _, every := range []int{1, 3} {
				if !c.Case("size", n, "Take after every", every) {
					continue
				}
				r := xring.NewRing(n)
				var hist []int
				take(c, r, nil)
				for i := 0; i < 3*n+3; i++ {
					r.Add(i)
					hist = append(hist, i)
					if i%every == 0 {
						take(c, r, last(hist, n))
					}
				}
			}
		}
		// long histories
		for n := 1; n <= 3; n++ {
			if !c.Case("size", n, "long history") {
				continue
			}
			r := xring.NewRing(n)
			var hist []int
			for i := 0; i < 140000; i++ {
				r.Add(i)
				hist = append(hist, i)
				if i%7 == 0 || i&(i-1) == 0 || i&(i+1) == 0 {
					take(c, r, last(hist, n))
				}
			}
		}
		// every sequence of Add and Take
		depth := 10
		if deep {
			depth = 15
		}
		for n := 1; n <= 5; n++ {
			for l := 1; l <= depth; l++ {
				for w := 0; w < 1<<uint(l); w++ {
					if !c.Case("size", n, "length", l, "word", w) {
						continue
					}
					r := xring.NewRing(n)
					var hist []int
					for i := 0; i < l; i++ {
						if w>>uint(i)&1 == 0 {
							r.Add(i)
							hist = append(hist, i)
						} else {
							take(c, r, last(hist, n))
						}
					}
					take(c, r, last(hist, n))
				}
			}
		}
		// values of any kind, nil included
		for n := 1; n <= 4; n++ {
			vals := []interface{}{nil, "x", 3.5, []int{1}, map[string]int{}, nil}
			if !c.Case("size", n, "mixed values") {
				continue
			}
			r := xring.NewRing(n)
			for i, v := range vals {
				r.Add(v)
				g := r.Take()
				lo := i + 1 - n
				if lo < 0 {
					lo = 0
				}
				if fmt.Sprintf("%#v", g) != fmt.Sprintf("%#v", vals[lo:i+1]) {
					c.Fail("Take returned %#v, want %#v", g, vals[lo:i+1])
				}
			}
		}
	}
}

func conc(n, pre int, threads []string) *vrt.Scenario {
	name := fmt.Sprintf("conc size=%d pre=%d threads=%v", n, pre, threads)
	return &vrt.Scenario{Name: name, Bounds: []int{-1}, Body: func(x *vrt.X) {
		r := xring.NewRing(n)
		init := ""
		for i := 0; i < pre; i++ {
			r.Add(fmt.Sprint("p", i))
			init = push(init, fmt.Sprint("p", i), n)
		}
		for ti, prog := range threads {
			ti, prog := ti, prog
			x.Go(fmt.Sprint("t", ti), func() {
				for i, o := range prog {
					if o == 'A' {
						v := fmt.Sprintf("t%d.%d", ti, i)
						x.Call("Add", func() any { r.Add(v); return nil }, v)
					} else {
						x.Call("Take", func() any {
							s := r.Take()
							out := ""
							for i, e := range s {
								out += fmt.Sprint(e) + ","
								s[i] = "spoiled"
							}
							return out
						})
					}
				}
			})
		}
		x.Wait()
		x.Call("Take", func() any {
			out := ""
			for _, e := range r.Take() {
				out += fmt.Sprint(e) + ","
			}
			return out
		})
		x.AtEnd(func(e *vrt.End) {
			e.NoBlocked()
			ops := e.Ops()
			if !lin.Check(ops, init, func(s string, o *vrt.OpRec) []string {
				if o.Name == "Add" {
					return []string{push(s, o.Args[0].(string), n)}
				}
				if o.End > 0 && o.Ret.(string) != s {
					return nil
				}
				return []string{s}
			}, nil) {
				e.Fail("not linearizable: %s", lin.Describe(ops))
			}
		})
	}}
}

// push appends v to the window s of at most n values.
func push(s, v string, n int) string {
	var parts []string
	cur := ""
	for _, r := range s {
		if r == ',' {
			parts = append(parts, cur)
			cur = ""
		} else {
			cur += string(r)
		}
	}
	parts = append(parts, v)
	if len(parts) > n {
		parts = parts[len(parts)-n:]
	}
	out := ""
	for _, p := range parts {
		out += p + ","
	}
	return out
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	r := vrt.EnumScenarios("sequential", 8, sequential(deep))
	r = append(r, vrt.EnumScenarios("aged", 2, ages)...)
	two := []string{"A", "T", "AA", "AT", "TA", "TT"}
	for n := 1; n <= 3; n++ {
		for pre := 0; pre <= n; pre++ {
			for i, a := range two {
				for _, b := range two[i:] {
					if a[0] == 'T' && b[0] == 'T' && len(a)+len(b) < 3 {
						continue
					}
					r = append(r, conc(n, pre, []string{a, b}))
				}
			}
			r = append(r, conc(n, pre, []string{"A", "A", "T"}), conc(n, pre, []string{"A", "T", "T"}), conc(n, pre, []string{"AA", "A", "T"}), conc(n, pre, []string{"AT", "A", "TA"}))
			if n == pre {
				for _, k := range []int{4, 6, 9} {
					var ps, qs []string
					for i := 0; i < k; i++ {
						ps = append(ps, []string{"AT", "A", "TA", "AA"}[i%4])
						qs = append(qs, []string{"A", "T"}[i%2])
					}
					dl := 3
					if deep {
						dl = 4
					}
					r = append(r, conc(2*n+1, pre, ps).Delays(0, dl-1), conc(n, pre, qs).Delays(0, dl))
					if k == 4 {
						r = append(r, conc(3*n, pre, []string{"AAAAAAAA", "ATATATAT", "TAATAATA"}).Delays(0, dl))
					}
				}
			}
			if deep {
				r = append(r, conc(n, pre, []string{"AAA", "TTT"}), conc(n, pre, []string{"AAT", "TAA", "ATA"}), conc(n, pre, []string{"AA", "AT", "TA", "TT"}))
			}
		}
	}
	return r
}
