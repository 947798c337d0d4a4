// P15: BatchError reports exactly the non-nil errors added, in order.
package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/chenquan/go-pkg/xerror"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P15", scenarios) }

type code int

func (c code) Error() string { return fmt.Sprint("code ", int(c)) }

type list []string // not comparable

func (l list) Error() string { return strings.Join(l, "+") }

// add adds an error of kind k; nested is an earlier Err of another batch.
func mk(k, i int) error {
	switch k {
	case 1:
		return fmt.Errorf("error %d", i)
	case 2:
		return errors.New("")
	case 3:
		return errors.New("two\nlines\n")
	case 4:
		return code(7) // equal to the one before
	case 5:
		return list{"a", "b"}
	case 6:
		var b xerror.BatchError
		b.Add(errors.New("inner 1"))
		b.Add(errors.New(""))
		b.Add(fmt.Errorf("inner %d", i))
		return b.Err()
	case 7:
		return errors.New("\n")
	case 8:
		return errors.New("日本\xff\x00")
	}
	return nil
}

// same reports whether a and b are the same error value.
func same(a, b error) bool {
	if la, ok := a.(list); ok {
		lb, ok := b.(list)
		return ok && len(la) == len(lb) && &la[0] == &lb[0]
	}
	if _, ok := b.(list); ok {
		return false
	}
	if a != nil && b != nil && !(reflect.TypeOf(a).Comparable() && reflect.TypeOf(b).Comparable()) {
		return reflect.TypeOf(a) == reflect.TypeOf(b) && a.Error() == b.Error()
	}
	return a == b
}

type snap struct {
	err  error
	text string
	n    int
}

type model struct {
	fail  func(string, ...any)
	b     xerror.BatchError
	added []error
	snaps []snap
}

func (m *model) texts() string {
	var t []string
	for _, e := range m.added {
		t = append(t, e.Error())
	}
	return strings.Join(t, "\n")
}

func (m *model) add(e error) {
	m.b.Add(e)
	if e != nil {
		m.added = append(m.added, e)
	}
}

// look checks Err and NotNil, and keeps what Err returned.
func (m *model) look() {
	err := m.b.Err()
	n := len(m.added)
	if m.b.NotNil() != (n > 0) {
		m.fail("NotNil is %v after %d errors", m.b.NotNil(), n)
	}
	switch {
	case n == 0:
		if err != nil {
			m.fail("Err is %v, nothing was added", err)
		}
	case n == 1:
		if !same(err, m.added[0]) {
			m.fail("Err is %v, the one error added was %v", err, m.added[0])
		}
	default:
		if err == nil || err.Error() != m.texts() {
			m.fail("Err is %q, want %q", fmt.Sprint(err), m.texts())
		}
	}
	if err != nil {
		m.snaps = append(m.snaps, snap{err, err.Error(), n})
	}
}

// old checks that errors obtained earlier are unchanged.
func (m *model) old() {
	for _, s := range m.snaps {
		if s.err.Error() != s.text {
			m.fail("an error obtained after %d additions was %q, is %q after %d", s.n, s.text, s.err.Error(), len(m.added))
		}
	}
}

// batches: what one batch returned is added to others, and all of them go on.
func batches(depth, long int) func(c *vrt.Enum) {
	return func(c *vrt.Enum) {
		const ops = 3 + 9
		t := 1
		for i := 0; i < depth; i++ {
			t *= ops
		}
		for n := 0; n <= long; n++ {
			for w := 0; w < t; w++ {
				if !c.Case("first", n, "errors in batch 0, then", w) {
					continue
				}
				var ms [3]*model
				for i := range ms {
					ms[i] = &model{fail: c.Fail}
				}
				for i := 0; i < n; i++ {
					ms[0].add(mk(1, i))
				}
				for i, v := 0, w; i < depth; i, v = i+1, v/ops {
					o := v % ops
					if o < 3 {
						ms[o].add(fmt.Errorf("step %d", i))
					} else {
						ms[(o-3)/3].add(ms[(o-3)%3].b.Err())
					}
				}
				for _, m := range ms {
					m.look()
				}
				for _, m := range ms {
					m.old()
				}
			}
		}
	}
}

func scenarios(tier string) []*vrt.Scenario {
	depth, kinds, long := 5, 8, 130
	if tier == "thorough" {
		depth, long = 7, 700
	}
	bd := 4
	if tier == "thorough" {
		bd = 5
	}
	r := vrt.EnumScenarios("several batches", 8, batches(bd, 9))
	return append(r, vrt.EnumScenarios("histories", 16, func(c *vrt.Enum) {
		var rec func(p []int)
		rec = func(p []int) {
			if len(p) > 0 && c.Case("added (0 is nil), looking after each", fmt.Sprint(p)) {
				m := &model{fail: c.Fail}
				m.look()
				for i, k := range p {
					m.add(mk(k, i))
					m.look()
				}
				m.old()
				m.look()
			}
			if len(p) > 0 && c.Case("added (0 is nil), looking once", fmt.Sprint(p)) {
				m := &model{fail: c.Fail}
				for i, k := range p {
					m.add(mk(k, i))
				}
				m.look()
				m.look()
				m.old()
			}
			if len(p) < depth {
				for k := 0; k <= kinds; k++ {
					rec(append(p[:len(p):len(p)], k))
				}
			}
		}
		rec(nil)
		// every history of Add(nil), Add(e), Err up to a length
		hl := 2*depth - 1
		for l := 1; l <= hl; l++ {
			t := 1
			for i := 0; i < l; i++ {
				t *= 3
			}
			for w := 0; w < t; w++ {
				if !c.Case("history", l, w) {
					continue
				}
				m := &model{fail: c.Fail}
				for i, v := 0, w; i < l; i, v = i+1, v/3 {
					switch v % 3 {
					case 0:
						m.add(mk(1, i))
					case 1:
						m.look()
					case 2:
						m.add(nil)
					}
				}
				m.old()
				m.look()
				m.old()
			}
		}
		// long ones, with errors obtained at every point and copies that go their own way
		var ns []int
		for n := 1; n <= long; n++ {
			ns = append(ns, n)
		}
		for _, n := range append(ns, 255, 256, 257, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2048, 4097, 10000) {
			for cut := 0; cut <= n; cut += 1 + n/16 {
				if !c.Case("errors", n, "obtained after", cut) {
					continue
				}
				m := &model{fail: c.Fail}
				for i := 0; i < n; i++ {
					if i == cut {
						m.look()
					}
					m.add(mk(1+i%3, i))
				}
				m.look()
				m.old()
			}
		}
	})...)
}
