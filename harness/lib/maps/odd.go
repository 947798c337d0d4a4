package maps

import (
	"github.com/chenquan/go-pkg/zverif/h/lib/odd"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

// OddValues checks pairs of operations with values of every kind against a plain map, with the key absent, new,
// promoted, deleted, deleted and passed over.
func OddValues(mk func() M, shared bool) func(c *vrt.Enum) {
	const absent = -3
	show := func(i int) string {
		if i == absent {
			return "nothing"
		}
		return odd.Name(i)
	}
	return func(c *vrt.Enum) {
		ops := []string{"Store", "LoadOrStore", "ComputeIfAbsent", "ComputeIfPresent", "Delete", "LoadAndDelete", "Clear", "Range"}
		for setup := 0; setup < 6; setup++ {
			for i := -1; i < len(odd.Values); i++ {
				for _, j := range []int{i, (i+2)%(len(odd.Values)+1) - 1, -1} {
					for _, op1 := range ops {
						for _, op2 := range ops {
							if shared && (op1 == "LoadAndDelete" || op2 == "LoadAndDelete") {
								continue
							}
							if !c.Case("setup", setup, op1, "of", show(i), op2, "of", show(j)) {
								continue
							}
							m, cur := mk(), absent
							all := func(f func(k, v any) bool) { m.Range(f) }
							none := func(k, v any) bool { return true }
							if setup > 0 {
								m.Store("a", odd.At(j))
								cur = j
							}
							if setup > 1 {
								all(none)
							}
							if setup > 2 {
								m.Delete("a")
								cur = absent
							}
							if setup > 3 {
								m.Store("b", 1)
							}
							if setup > 4 {
								m.ComputeIfAbsent("a", func(any) any { return odd.At(i) })
								cur = i
							}
							for n, op := range []string{op1, op2} {
								v := []int{i, j}[n]
								got, ok, want, wantOK := -1, false, -1, false
								switch op {
								case "Store":
									m.Store("a", odd.At(v))
									cur = v
								case "LoadOrStore":
									a, loaded := m.LoadOrStore("a", odd.At(v))
									if shared { // returns no value
										a = odd.At(v)
										if cur != absent {
											a = odd.At(cur)
										}
									}
									got, ok, wantOK = odd.Index(a), loaded, cur != absent
									if cur == absent {
										cur = v
									}
									want = cur
								case "ComputeIfAbsent":
									a, loaded := m.ComputeIfAbsent("a", func(any) any { return odd.At(v) })
									got, ok, wantOK = odd.Index(a), loaded, cur != absent
									if cur == absent {
										cur = v
									}
									want = cur
								case "ComputeIfPresent":
									a, exist := m.ComputeIfPresent("a", func(_, old any) any {
										if odd.Index(old) != cur {
											c.Fail("the function got %s, want %s", show(odd.Index(old)), show(cur))
										}
										return odd.At(v)
									})
									got, ok, wantOK = odd.Index(a), exist, cur != absent
									if cur != absent {
										cur, want = v, v
									}
								case "Delete":
									m.Delete("a")
									cur = absent
								case "LoadAndDelete":
									a, loaded := m.LoadAndDelete("a")
									got, ok, wantOK = odd.Index(a), loaded, cur != absent
									if cur != absent {
										want = cur
									}
									cur = absent
								case "Clear":
									m.Clear()
									cur = absent
								case "Range":
									all(none)
								}
								if got != want || ok != wantOK {
									c.Fail("%s of %s returned %s, %v, want %s, %v", op, show(v), show(got), ok, show(want), wantOK)
								}
								a, ok := m.Load("a")
								if ok != (cur != absent) || ok && odd.Index(a) != cur || !ok && a != nil {
									c.Fail("after %s of %s Load returned %s, %v, want %s", op, show(v), show(odd.Index(a)), ok, show(cur))
								}
								if n == 1 {
									seen := absent
									all(func(k, v any) bool {
										if k == "a" {
											seen = odd.Index(v)
										}
										return true
									})
									if seen != cur {
										c.Fail("Range saw %s, want %s", show(seen), show(cur))
									}
								}
								c.Eval()
							}
						}
					}
				}
			}
		}
	}
}
