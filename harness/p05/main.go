// P05: Spinlock gives mutual exclusion and progress.
package main

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/zverif/lin"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P05", scenarios) }

// spec: the lock is held or free.
func spec(held bool, o *vrt.OpRec) []bool {
	switch o.Name {
	case "Lock":
		if held {
			return nil
		}
		return []bool{true}
	case "Unlock":
		if !held {
			return nil
		}
		return []bool{false}
	case "TryLock":
		if o.End > 0 && o.Ret.(bool) == held {
			return nil
		}
		return []bool{true}
	}
	panic(o.Name)
}

// program letters: L lock+critical section+unlock, T try (critical section and unlock on success),
// t try again until it succeeds a bounded number of times, H lock with a long critical section.
func prog(x *vrt.X, l *xsync.Spinlock, n *int, p string) {
	section := func(steps int) {
		if x.Enter("critical section") > 1 {
			x.Fail("two goroutines hold the lock")
		}
		v := *n
		for i := 0; i < steps; i++ {
			x.Step()
		}
		*n = v + 1
		x.Leave("critical section")
		x.Call("Unlock", func() any { l.Unlock(); return nil })
	}
	for _, c := range p {
		switch c {
		case 'L':
			x.Call("Lock", func() any { l.Lock(); return nil })
			section(1)
		case 'H':
			x.Call("Lock", func() any { l.Lock(); return nil })
			section(70)
		case 'T', 't':
			k := 1
			if c == 't' {
				k = 3
			}
			for i := 0; i < k; i++ {
				if x.Call("TryLock", func() any { return l.TryLock() }).(bool) {
					section(1)
					break
				}
			}
		}
	}
}

func scen(progs []string, bounds []int) *vrt.Scenario {
	return &vrt.Scenario{Name: "threads " + strings.Join(progs, " "), Bounds: bounds, Body: func(x *vrt.X) {
		l := new(xsync.Spinlock)
		n := 0
		for i, p := range progs {
			p := p
			x.Go(fmt.Sprint("t", i), func() { prog(x, l, &n, p) })
		}
		x.Wait()
		// free again
		if !x.Call("TryLock", func() any { return l.TryLock() }).(bool) {
			x.Fail("TryLock failed on a free lock")
		}
		x.AtEnd(func(e *vrt.End) {
			e.NoBlocked()
			if e.Failed() {
				return
			}
			if n != e.Total("critical section") {
				e.Fail("%d critical sections left the counter at %d", e.Total("critical section"), n)
			}
			ops := e.Ops()
			if len(ops) < 60 && !lin.Check(ops, false, spec, nil) {
				e.Fail("not a lock: %s", lin.Describe(ops))
			}
		})
	}}
}

// held: the lock is held throughout; TryLock must fail without blocking and Lock must wait.
func held(how string, tries int, waiters int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("held by %s, %d tries, %d waiters", how, tries, waiters), Bounds: []int{2}, Body: func(x *vrt.X) {
		l := new(xsync.Spinlock)
		if how == "Lock" {
			l.Lock()
		} else if !l.TryLock() {
			x.Fail("TryLock failed on a new lock")
		}
		released := false
		x.Go("tries", func() {
			for i := 0; i < tries; i++ {
				if l.TryLock() {
					x.Fail("TryLock succeeded on a held lock")
				}
			}
		})
		for i := 0; i < waiters; i++ {
			x.Daemon("waiter", func() {
				l.Lock()
				if !released {
					x.Fail("Lock returned while the lock was held")
				}
				x.Emit("got")
				l.Unlock()
			})
		}
		x.Wait()
		for i := 0; i < 20; i++ {
			x.Step()
		}
		released = true
		l.Unlock()
		x.AtEnd(func(e *vrt.End) {
			e.NoBlocked()
			if len(e.Emits()) != waiters {
				e.Fail("%d of %d waiters got the lock after the holder unlocked", len(e.Emits()), waiters)
			}
		})
	}}
}

// crowd: n goroutines are at the lock at once, and whoever holds it lets the others run.
func crowd(n int, bounds ...int) *vrt.Scenario {
	return (&vrt.Scenario{Name: fmt.Sprintf("crowd of %d", n), Body: func(x *vrt.X) {
		l := new(xsync.Spinlock)
		sum := 0
		l.Lock()
		for i := 0; i < n; i++ {
			x.Go("waiter", func() {
				l.Lock()
				if x.Enter("critical section") > 1 {
					x.Fail("two goroutines hold the lock")
				}
				v := sum
				runtime.Gosched()
				sum = v + 1
				x.Leave("critical section")
				l.Unlock()
			})
		}
		for i := 0; i < 3; i++ {
			runtime.Gosched()
			if sum > 0 {
				x.Fail("Lock returned while the lock was held")
			}
		}
		l.Unlock()
		x.Wait()
		if !l.TryLock() {
			x.Fail("TryLock failed on a free lock")
		}
		x.AtEnd(func(e *vrt.End) {
			e.NoBlocked()
			if e.Failed() {
				return
			}
			if sum != n {
				e.Fail("%d critical sections left the counter at %d", n, sum)
			}
		})
	}}).Delays(bounds...)
}

// forever: the lock is never released; a waiter may poll for as long as it likes.
func forever(how string) *vrt.Scenario {
	return &vrt.Scenario{Name: "held by " + how + " for ever", Bounds: []int{0}, Idle: 1500000, RaceBound: -1, Body: func(x *vrt.X) {
		l := new(xsync.Spinlock)
		if how == "Lock" {
			l.Lock()
		} else if !l.TryLock() {
			x.Fail("TryLock failed on a new lock")
		}
		x.Daemon("waiter", func() {
			l.Lock()
			x.Fail("Lock returned while the lock was held")
		})
	}}
}

// reuse: many uncontended rounds, and a zero value inside a struct.
func reuse(c *vrt.Enum) {
	type s struct {
		xsync.Spinlock
		n int
	}
	v := make([]s, 3)
	for i := 0; i < 5000; i++ {
		if !c.Case(i) {
			continue
		}
		x := &v[i%3]
		if i%2 == 0 {
			x.Lock()
		} else if !x.TryLock() {
			c.Fail("TryLock failed on a free lock")
		}
		for k := 0; k < 3; k++ {
			if x.TryLock() {
				c.Fail("TryLock succeeded on a held lock")
			}
		}
		x.Unlock()
	}
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	r := vrt.EnumScenarios("reuse", 1, reuse)
	ps := []string{"L", "T", "t", "LL", "LT", "TL", "TT"}
	for i, a := range ps {
		for _, b := range ps[i:] {
			r = append(r, scen([]string{a, b}, []int{1, 2, 3, -1}))
		}
	}
	for i, a := range ps {
		for j, b := range ps[i:] {
			for _, c := range ps[i+j:] {
				n := len(a) + len(b) + len(c)
				if n > 4 && !deep {
					continue
				}
				bd := []int{1, 2}
				if deep {
					bd = []int{1, 2, 3, 4}
				}
				r = append(r, scen([]string{a, b, c}, bd))
			}
		}
	}
	r = append(r, scen([]string{"L", "L", "L", "L"}, []int{0, 1}), scen([]string{"L", "T", "L", "T"}, []int{0, 1}), scen([]string{"LLL", "LLL"}, []int{1, 2}))
	r = append(r, scen([]string{"H", "L"}, []int{0, 1}), scen([]string{"H", "L", "L"}, []int{0}), scen([]string{"H", "H"}, []int{0, 1}), scen([]string{"H", "T"}, []int{0, 1}))
	// many contenders, under a delay bound
	for _, ps := range [][]string{{"L", "L", "L", "L", "L", "L"}, {"LL", "LL", "LL", "LL"}, {"LT", "TL", "LT", "TL", "t"}, {"L", "L", "L", "L", "L", "L", "L", "L", "L", "L"}, {"LLLLLLLL", "LLLLLLLL"}, {"LTLTLT", "tLtLtL", "LLLLLL"}, {"T", "T", "T", "T", "T", "T", "T", "T"}} {
		d := 2
		if deep {
			d = 4
		}
		r = append(r, scen(ps, nil).Delays(0, d))
	}
	for _, n := range []int{12, 20, 40, 70, 130, 260, 300} {
		s := crowd(n, 0)
		if n < 41 {
			s = crowd(n, 0, 1)
		}
		s.RaceBound = -1
		r = append(r, s)
	}
	for _, how := range []string{"Lock", "TryLock"} {
		for tries := 0; tries <= 2; tries++ {
			for w := 0; w <= 2; w++ {
				r = append(r, held(how, tries, w))
			}
		}
		r = append(r, forever(how))
	}
	return r
}
