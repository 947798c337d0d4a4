// Package rm drives the ResourceManager.
package rm

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/zverif/lin"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

// Res is a resource; it is not comparable on purpose.
type Res struct {
	Name string
	fail string
	run  *Run
	_    []int
}

// Close records the close.
func (r Res) Close() error {
	r.run.x.Call("close", func() any { r.run.x.Step(); return r.Name }, r.Name)
	if r.fail != "" {
		return errors.New(r.fail)
	}
	return nil
}

// closeError is the text of the error of the resource's Close, "" if it succeeds.
func closeError(kind byte, name string) string {
	switch kind {
	case 'H':
		return "close " + name
	case 'E':
		return "broken"
	}
	return ""
}

// Run is one execution.
type Run struct {
	x     *vrt.X
	m     *xsync.ResourceManager
	setup map[string]string // key -> resource registered by the setup
}

// do performs one operation: letter, key.
//
// G get with a succeeding create, H the same, its resource's Close fails, E the same with an
// error text all of them share, g get with a failing
// create, b get whose create returns a resource and an error, R remove, C close the manager.
func (r *Run) do(op, tag string) {
	x, m := r.x, r.m
	k := op[1:]
	switch op[0] {
	case 'G', 'H', 'E', 'g', 'b':
		x.Call("Get", func() any {
			v, err := m.Get(k, func() (io.Closer, error) {
				if x.Enter("create "+k) > 1 {
					x.Fail("two create calls run at a time for key %s", k)
				}
				res := x.Call("create", func() any { x.Step(); return tag }, k, tag)
				_ = res
				x.Leave("create " + k)
				switch op[0] {
				case 'g':
					return nil, errors.New(tag)
				case 'b':
					return Res{Name: tag, run: r}, errors.New(tag)
				}
				return Res{Name: tag, run: r, fail: closeError(op[0], tag)}, nil
			})
			if err != nil {
				return "error " + err.Error()
			}
			c, ok := v.(Res)
			if !ok {
				return fmt.Sprintf("strange %v", v)
			}
			return "resource " + c.Name
		}, k, tag, string(op[0]))
	case 'R':
		x.Call("Remove", func() any { return m.Remove(k) }, k, "", "R")
	case 'C':
		x.Call("Close", func() any {
			err := m.Close()
			if err == nil {
				return ""
			}
			return err.Error()
		}, "", "", "C")
	}
}

// Keys are keys that some careless comparison could take for one another.
func Keys() []string {
	long := strings.Repeat("k", 300)
	return []string{"", "a", "A", " a", "a ", "a\x00", "\x00a", "aa", "ab", "ä", "Ä", "a\u0308", "é", "e\u0301", "1", "01", "+1", "a/b", "a:b", "a,b", "a|b", "nil", "<nil>", long, long + "k", long + "j", "j" + long, "日本", "日", "\xff", "\xfe", "k1", "k10", "x", "X", "ß", "ss", "SS", "ſ", "s", "K", "\u212a"}
}

// Ops makes one operation per key, the kinds taken in turn.
func Ops(kinds string, keys []string) (r []string) {
	for i, k := range keys {
		r = append(r, kinds[i%len(kinds):i%len(kinds)+1]+k)
	}
	return
}

// Explore runs the programs after a setup and, if closing, closes the manager at the end.
func Explore(x *vrt.X, setup []string, progs [][]string, closing bool) {
	r := &Run{x: x, m: xsync.NewResourceManager(), setup: map[string]string{}}
	fails := map[string]bool{}
	for i, op := range setup {
		tag := fmt.Sprintf("i%d", i)
		r.do(op, tag)
	}
	for ti, p := range progs {
		ti, p := ti, p
		x.Go(fmt.Sprintf("t%d", ti), func() {
			for i, op := range p {
				r.do(op, fmt.Sprintf("t%d.%d", ti, i))
			}
		})
	}
	x.Wait()
	if closing {
		r.do("C", "")
	}
	_ = fails
	x.AtEnd(func(e *vrt.End) {
		e.NoBlocked()
		if e.Failed() {
			return
		}
		r.check(e)
	})
}

// Overlap runs the programs while one thread closes the manager. A Get that finds the manager closed may
// fail in whatever way (it panics), but one that returns a resource has registered it before Close, so
// Close must have closed it.
func Overlap(x *vrt.X, setup []string, progs [][]string) {
	r := &Run{x: x, m: xsync.NewResourceManager(), setup: map[string]string{}}
	for i, op := range setup {
		r.do(op, fmt.Sprintf("i%d", i))
	}
	for ti, p := range progs {
		ti, p := ti, p
		x.Go(fmt.Sprintf("t%d", ti), func() {
			defer func() {
				if v := recover(); v != nil {
					x.Note("panic: %v", v)
					x.SetReg(0, 1)
				}
			}()
			for i, op := range p {
				r.do(op, fmt.Sprintf("t%d.%d", ti, i))
			}
		})
	}
	x.Go("closer", func() { r.do("C", "") })
	x.AtEnd(func(e *vrt.End) {
		if e.Failed() {
			return
		}
		ops := e.Ops()
		if x.Reg(0) == 0 {
			e.NoBlocked()
		}
		closes := map[string]int{}
		kind := map[string]byte{}
		var end int
		for _, o := range ops {
			switch o.Name {
			case "close":
				closes[o.Args[0].(string)]++
				if closes[o.Args[0].(string)] > 1 {
					e.Fail("resource %s was closed twice: %s", o.Args[0], lin.Describe(ops))
					return
				}
			case "Get":
				kind[o.Args[1].(string)] = o.Args[2].(string)[0]
			case "Close":
				end = o.End
			}
		}
		if end == 0 {
			e.Fail("Close did not return: %s", lin.Describe(ops))
			return
		}
		for _, o := range ops {
			if o.Name != "Get" || o.End == 0 {
				continue
			}
			ret, ok := o.Ret.(string)
			if !ok || !strings.HasPrefix(ret, "resource ") || closes[ret[9:]] == 1 {
				continue
			}
			removed := false
			for _, q := range ops {
				if q.Name == "Remove" && q.Args[0] == o.Args[0] && q.End > 0 && q.Ret == true {
					removed = true
				}
			}
			if !removed {
				e.Fail("Get returned %s, which was neither closed nor removed: %s", ret, lin.Describe(ops))
				return
			}
		}
		var want, got []string
		for n := range closes {
			if t := closeError(kind[n], n); t != "" {
				want = append(want, t)
			}
		}
		for _, o := range ops {
			if o.Name == "Close" && o.Ret.(string) != "" {
				got = strings.Split(o.Ret.(string), "\n")
			}
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, "|") != strings.Join(got, "|") {
			e.Fail("Close reported %q, the resources reported %q: %s", got, want, lin.Describe(ops))
		}
	})
}

// the state of one key: the registered resource, whether the manager was closed
type state struct {
	res    string
	closed bool
}

func (r *Run) check(e *vrt.End) {
	ops := e.Ops()
	kind := map[string]byte{} // what each create was to do
	creator := map[string]*vrt.OpRec{}
	keys := map[string]bool{}
	for _, o := range ops {
		if o.Name == "Get" {
			kind[o.Args[1].(string)] = o.Args[2].(string)[0]
			creator[o.Args[1].(string)] = o
			keys[o.Args[0].(string)] = true
		}
		if o.Name == "Remove" {
			keys[o.Args[0].(string)] = true
		}
	}
	createdFor := map[string]string{}
	for _, o := range ops {
		if o.Name == "create" {
			createdFor[o.Args[1].(string)] = o.Args[0].(string)
		}
	}
	// errors come from creates of overlapping Gets; resources from the right key
	for _, o := range ops {
		if o.Name != "Get" {
			continue
		}
		ret := o.Ret.(string)
		f := strings.SplitN(ret, " ", 2)
		k := createdFor[f[1]]
		if k != o.Args[0].(string) {
			e.Fail("Get(%s) returned %q, created for key %q: %s", o.Args[0], ret, k, lin.Describe(ops))
			return
		}
		g := creator[f[1]]
		bad := kind[f[1]] == 'g' || kind[f[1]] == 'b'
		if f[0] == "error" {
			if !bad || g.Begin > o.End || g.End < o.Begin {
				e.Fail("Get(%s) returned %q, which no overlapping create returned: %s", k, ret, lin.Describe(ops))
				return
			}
		} else if bad {
			e.Fail("Get(%s) returned the resource of a failed create: %s", k, lin.Describe(ops))
			return
		}
	}
	var names []string
	for k := range keys {
		names = append(names, k)
	}
	sort.Strings(names)
	closes := map[string]int{}
	for _, o := range ops {
		if o.Name == "close" {
			closes[o.Args[0].(string)]++
		}
	}
	for n, c := range closes {
		if c > 1 {
			e.Fail("resource %s was closed %d times: %s", n, c, lin.Describe(ops))
			return
		}
	}
	for _, k := range names {
		k := k
		var sel []*vrt.OpRec
		for _, o := range ops {
			switch o.Name {
			case "Get":
				if o.Args[0].(string) == k && strings.HasPrefix(o.Ret.(string), "resource") {
					sel = append(sel, o)
				}
			case "Remove":
				if o.Args[0].(string) == k {
					sel = append(sel, o)
				}
			case "Close":
				sel = append(sel, o)
			case "create":
				if o.Args[0].(string) == k {
					// create begins only while nothing is registered
					sel = append(sel, &vrt.OpRec{Name: "unregistered", Args: o.Args, Begin: o.Begin, End: o.Begin})
					if kd := kind[o.Args[1].(string)]; kd != 'g' && kd != 'b' {
						// the registration happens some time after create returned
						sel = append(sel, &vrt.OpRec{Name: "register", Args: o.Args, Begin: o.End, End: 0})
					}
				}
			}
		}
		// a resource of this key that some close call closed was registered at Close
		final := func(s state) bool { return true }
		if !lin.Check(sel, state{}, func(s state, o *vrt.OpRec) []state {
			switch o.Name {
			case "Get":
				if s.res == "" || "resource "+s.res != o.Ret.(string) {
					return nil
				}
				return []state{s}
			case "unregistered":
				if s.res != "" {
					return nil
				}
				return []state{s}
			case "register":
				if s.res != "" || s.closed {
					return nil
				}
				return []state{{o.Args[1].(string), false}}
			case "Remove":
				if o.Ret.(bool) != (s.res != "") {
					return nil
				}
				return []state{{"", s.closed}}
			case "Close":
				if s.res != "" && closes[s.res] != 1 {
					return nil
				}
				for n := range closes {
					if createdFor[n] == k && n != s.res && o.End > 0 {
						return nil // closed a resource that is not registered
					}
				}
				return []state{{"", true}}
			}
			panic(o.Name)
		}, final) {
			e.Fail("key %s: no order of effects explains: %s", k, lin.Describe(sel))
			return
		}
	}
	// Close reports exactly the errors of the closes
	for _, o := range ops {
		if o.Name != "Close" {
			continue
		}
		var want []string
		for n := range closes {
			if t := closeError(kind[n], n); t != "" {
				want = append(want, t)
			}
		}
		var got []string
		if s := o.Ret.(string); s != "" {
			got = strings.Split(s, "\n")
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, "|") != strings.Join(got, "|") {
			e.Fail("Close reported %q, the resources reported %q: %s", got, want, lin.Describe(ops))
			return
		}
	}
}
