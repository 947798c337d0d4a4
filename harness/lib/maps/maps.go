// Package maps drives the concurrent maps: operation alphabet, setup histories, programs,
// and the sequential specification.
package maps

import (
	"fmt"
	"strings"

	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/zverif/lin"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

// M is the common interface of Map and SharedMap (string keys).
type M interface {
	Load(k string) (any, bool)
	Store(k string, v any)
	LoadOrStore(k string, v any) (any, bool)
	LoadAndDelete(k string) (any, bool)
	Delete(k string)
	Clear()
	Range(f func(k, v any) bool)
	ComputeIfAbsent(k string, f func(k any) any) (any, bool)
	ComputeIfPresent(k string, f func(k, v any) any) (any, bool)
}

// Plain adapts xsync.Map.
type Plain struct{ P *xsync.Map }

func (m Plain) Load(k string) (any, bool)               { return m.P.Load(k) }
func (m Plain) Store(k string, v any)                   { m.P.Store(k, v) }
func (m Plain) LoadOrStore(k string, v any) (any, bool) { return m.P.LoadOrStore(k, v) }
func (m Plain) LoadAndDelete(k string) (any, bool)      { return m.P.LoadAndDelete(k) }
func (m Plain) Delete(k string)                         { m.P.Delete(k) }
func (m Plain) Clear()                                  { m.P.Clear() }
func (m Plain) Range(f func(k, v any) bool)             { m.P.Range(f) }
func (m Plain) ComputeIfAbsent(k string, f func(k any) any) (any, bool) {
	return m.P.ComputeIfAbsent(k, f)
}
func (m Plain) ComputeIfPresent(k string, f func(k, v any) any) (any, bool) {
	return m.P.ComputeIfPresent(k, f)
}

// Shared adapts xsync.SharedMap, whose LoadOrStore reports whether it stored and which has no
// LoadAndDelete.
type Shared struct{ P *xsync.SharedMap }

// NotReported stands for a result the operation does not return.
type NotReported struct{}

func (m Shared) Load(k string) (any, bool) { return m.P.Load(k) }
func (m Shared) Store(k string, v any)     { m.P.Store(k, v) }
func (m Shared) LoadOrStore(k string, v any) (any, bool) {
	return NotReported{}, !m.P.LoadOrStore(k, v)
}
func (m Shared) LoadAndDelete(k string) (any, bool) { panic("SharedMap has no LoadAndDelete") }
func (m Shared) Delete(k string)                    { m.P.Delete(k) }
func (m Shared) Clear()                             { m.P.Clear() }
func (m Shared) Range(f func(k, v any) bool)        { m.P.Range(f) }
func (m Shared) ComputeIfAbsent(k string, f func(k any) any) (any, bool) {
	return m.P.ComputeIfAbsent(k, func(k string) interface{} { return f(k) })
}
func (m Shared) ComputeIfPresent(k string, f func(k, v any) any) (any, bool) {
	return m.P.ComputeIfPresent(k, func(k string, v interface{}) interface{} { return f(k, v) })
}

// Setups are histories that bring the map into its different internal states (entries only in
// the dirty map, promoted, deleted, expunged, shadowed, nearly promoted, cleared).
var Setups = map[string]string{
	"empty":        "",
	"dirty":        "Sa",
	"promoted":     "Sa R",
	"deleted":      "Sa R Da",
	"expunged":     "Sa R Da Sb",
	"both":         "Sa R Sb",
	"bothdeleted":  "Sa R Sb Da",
	"expungedmore": "Sa Sb R Da Sc",
	"twodirty":     "Sa Sb",
	"nearpromote":  "Sa Sb Lc",
	"threedirty":   "Sa Sb Sc La",
	"cleared":      "Sa Sb R C",
	"clearedagain": "Sa R C Sa Lb",
	"nilvalue":     "Na R",
	"shadow":       "Sa Sb R Da Db Sc",
}

// Box is a value that cannot be compared.
type Box struct {
	S string
	_ []int
}

// String names the value.
func (b Box) String() string { return b.S }

// Val makes a stored value of its name: nil, a string or a value that cannot be compared.
func Val(s string) any {
	if s == "nil" {
		return nil
	}
	if s != "" && s[0] == 't' {
		return Box{S: s}
	}
	return s
}

// Name is the inverse of Val.
func Name(v any) string {
	if v == nil {
		return "nil"
	}
	if _, ok := v.(NotReported); ok {
		return "?"
	}
	return fmt.Sprint(v)
}

// Do performs one operation given as letter and key; tag makes the values it writes unique.
// Its result is a string the specification understands.
//
// L load, S store, N store nil, O LoadOrStore, T LoadOrStore of nil, Q and B compute nil for a
// present and an absent key, D LoadAndDelete, X Delete, C Clear,
// Y and Z ComputeIfPresent and ComputeIfAbsent with a function that panics (y and z: after a step),
// P ComputeIfPresent (appends the tag), A ComputeIfAbsent, p/a the same with a step inside the
// function, R Range to the end (promotes; result not checked here).
func Do(x *vrt.X, m M, op, tag string) string {
	k := ""
	if len(op) > 1 {
		k = op[1:]
	}
	switch op[0] {
	case 'L':
		v, ok := m.Load(k)
		return res(v, ok)
	case 'S':
		m.Store(k, Val(tag))
	case 'N':
		m.Store(k, nil)
	case 'O':
		v, ok := m.LoadOrStore(k, Val(tag))
		return res2(v, ok)
	case 'T':
		v, ok := m.LoadOrStore(k, nil)
		return res2(v, ok)
	case 'Q':
		v, ok := m.ComputeIfPresent(k, func(kk, v any) any { return nil })
		return res(v, ok)
	case 'B':
		v, ok := m.ComputeIfAbsent(k, func(kk any) any { return nil })
		return res2(v, ok)
	case 'Y', 'y', 'Z', 'z':
		return panicking(x, m, op[0], k)
	case 'D':
		v, ok := m.LoadAndDelete(k)
		return res(v, ok)
	case 'X':
		m.Delete(k)
	case 'C':
		m.Clear()
	case 'R':
		m.Range(func(k, v any) bool { return true })
	case 'P', 'p':
		v, ok := m.ComputeIfPresent(k, func(kk, v any) any {
			if kk != any(k) && x != nil {
				x.Fail("ComputeIfPresent called its function with key %v instead of %q", kk, k)
			}
			if op[0] == 'p' {
				x.Step()
			}
			return Val(Name(v) + "+" + tag)
		})
		return res(v, ok)
	case 'A', 'a':
		v, ok := m.ComputeIfAbsent(k, func(kk any) any {
			if kk != any(k) && x != nil {
				x.Fail("ComputeIfAbsent called its function with key %v instead of %q", kk, k)
			}
			if op[0] == 'a' {
				x.Step()
			}
			return Val(tag)
		})
		return res2(v, ok)
	default:
		panic("unknown operation " + op)
	}
	return ""
}

type boom struct{}

// panicking computes with a function that panics.
func panicking(x *vrt.X, m M, c byte, k string) (r string) {
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(boom); !ok {
				panic(v)
			}
			r = "panicked"
		}
	}()
	if c == 'Y' || c == 'y' {
		v, ok := m.ComputeIfPresent(k, func(kk, v any) any {
			if c == 'y' {
				x.Step()
			}
			panic(boom{})
		})
		return res(v, ok)
	}
	v, ok := m.ComputeIfAbsent(k, func(kk any) any {
		if c == 'z' {
			x.Step()
		}
		panic(boom{})
	})
	return res2(v, ok)
}

func res(v any, ok bool) string {
	if !ok {
		if v != nil {
			return "absent with value " + Name(v)
		}
		return "absent"
	}
	return "=" + Name(v)
}

func res2(v any, loaded bool) string {
	if loaded {
		return "loaded " + Name(v)
	}
	return "stored " + Name(v)
}

// State maps key index (a, b, c) to the value, "" if absent.
type State [4]string

func idx(k string) int { return int(k[0] - 'a') }

// Step is the sequential specification: it returns the states after o from s, none if o's
// result is impossible.
func Step(s State, o *vrt.OpRec) []State {
	op, tag := o.Args[0].(string), o.Args[1].(string)
	got := ""
	if o.End > 0 {
		got = o.Ret.(string)
	}
	ok := func(want string, n State) []State {
		if o.End > 0 && got != want {
			return nil
		}
		return []State{n}
	}
	ok2 := func(kind, val string, n State) []State {
		if o.End > 0 && got != kind+" "+val && got != kind+" ?" {
			return nil
		}
		return []State{n}
	}
	n := s
	if op[0] == 'C' {
		return ok("", State{})
	}
	if op[0] == 'R' {
		return ok("", s)
	}
	i := idx(op[1:])
	cur := s[i]
	switch op[0] {
	case 'L':
		if cur == "" {
			return ok("absent", s)
		}
		return ok("="+cur, s)
	case 'S':
		n[i] = tag
		return ok("", n)
	case 'N':
		n[i] = "nil"
		return ok("", n)
	case 'T', 'B':
		if cur != "" {
			return ok2("loaded", cur, s)
		}
		n[i] = "nil"
		return ok2("stored", "nil", n)
	case 'Y', 'y':
		if cur == "" {
			return ok("absent", s)
		}
		return ok("panicked", s)
	case 'Z', 'z':
		if cur != "" {
			return ok2("loaded", cur, s)
		}
		return ok("panicked", s)
	case 'Q':
		if cur == "" {
			return ok("absent", s)
		}
		n[i] = "nil"
		return ok("=nil", n)
	case 'O', 'A', 'a':
		if cur != "" {
			return ok2("loaded", cur, s)
		}
		n[i] = tag
		return ok2("stored", tag, n)
	case 'D':
		n[i] = ""
		if cur == "" {
			return ok("absent", n)
		}
		return ok("="+cur, n)
	case 'X':
		n[i] = ""
		return ok("", n)
	case 'P', 'p':
		if cur == "" {
			return ok("absent", s)
		}
		n[i] = cur + "+" + tag
		return ok("="+n[i], n)
	}
	panic("unknown operation " + op)
}

// Apply is Step for a sequential history (the result is taken from the specification).
func Apply(s State, op, tag string) State {
	return Step(s, &vrt.OpRec{Args: []any{op, tag}})[0]
}

// Concurrent runs thread programs after a setup history and checks the history for
// linearizability. Each program is a list of operations.
func Concurrent(x *vrt.X, m M, setup string, progs [][]string) { run(x, m, setup, progs, false) }

// ConcurrentPerKey checks every key's operations on their own (Clear counts for each key).
func ConcurrentPerKey(x *vrt.X, m M, setup string, progs [][]string) { run(x, m, setup, progs, true) }

func run(x *vrt.X, m M, setup string, progs [][]string, perKey bool) {
	var init State
	for i, op := range strings.Fields(setup) {
		tag := fmt.Sprintf("i%d", i)
		Do(x, m, op, tag)
		init = Apply(init, op, tag)
	}
	for ti, p := range progs {
		ti, p := ti, p
		x.Go(fmt.Sprintf("t%d", ti), func() {
			for i, op := range p {
				op := op
				tag := fmt.Sprintf("t%d.%d", ti, i)
				x.Call(op, func() any { return Do(x, m, op, tag) }, op, tag)
			}
		})
	}
	x.Wait()
	for _, k := range []string{"a", "b", "c"} {
		k := k
		x.Call("L"+k, func() any { return Do(x, m, "L"+k, "") }, "L"+k, "")
	}
	x.AtEnd(func(e *vrt.End) {
		e.NoBlocked()
		if e.Failed() {
			return
		}
		ops := e.Ops()
		if perKey {
			for _, k := range []string{"a", "b", "c"} {
				var sel []*vrt.OpRec
				for _, o := range ops {
					if n := o.Args[0].(string); n[1:] == k || n == "C" {
						sel = append(sel, o)
					}
				}
				if !lin.Check(sel, init, Step, nil) {
					e.Fail("key %s: not linearizable from %v: %s", k, init, lin.Describe(sel))
				}
			}
			return
		}
		if !lin.Check(ops, init, Step, nil) {
			e.Fail("not linearizable from %v: %s", init, lin.Describe(ops))
		}
	})
}

// Words enumerates all words of length 1..n over an alphabet.
func Words(alpha []string, n int) [][]string {
	var r [][]string
	var level [][]string
	level = append(level, nil)
	for i := 0; i < n; i++ {
		var next [][]string
		for _, w := range level {
			for _, a := range alpha {
				next = append(next, append(append([]string(nil), w...), a))
			}
		}
		r = append(r, next...)
		level = next
	}
	return r
}

// Visit is one call of Range's function.
type Visit struct{ K, V string }

// RangeOp runs Range as a recorded operation that stops after limit visits (0: never); step
// makes its function take a visible step.
func RangeOp(x *vrt.X, m M, limit int, step bool) {
	x.Call("Range", func() any {
		var vs []Visit
		m.Range(func(k, v any) bool {
			if limit > 0 && len(vs) == limit {
				x.Fail("Range called its function again after it had returned false (%v)", vs)
			}
			vs = append(vs, Visit{fmt.Sprint(k), Name(v)})
			if step {
				x.Step()
			}
			return limit == 0 || len(vs) < limit
		})
		return vs
	}, "range", limit)
}

// CheckRanges checks every recorded Range: no key twice, and for every key there is a moment of
// the call at which the key had the value reported, or was absent if it was not reported (and
// the Range was not stopped).
func CheckRanges(e *vrt.End, init State) {
	ops := e.Ops()
	for _, r := range ops {
		if r.Name != "Range" || r.End == 0 {
			continue
		}
		vs := r.Ret.([]Visit)
		limit := r.Args[1].(int)
		seen := map[string]string{}
		for _, v := range vs {
			if _, dup := seen[v.K]; dup {
				e.Fail("Range visited key %s twice: %v", v.K, vs)
				return
			}
			seen[v.K] = v.V
			if len(v.K) != 1 || v.K[0] < 'a' || v.K[0] > 'd' {
				e.Fail("Range visited the unknown key %q", v.K)
				return
			}
		}
		for _, k := range []string{"a", "b", "c", "d"} {
			v, visited := seen[k]
			if !visited && limit > 0 && len(vs) >= limit {
				continue
			}
			ret := "absent"
			if visited {
				ret = "=" + v
			}
			pseudo := &vrt.OpRec{Thread: r.Thread, Name: "Range(" + k + ")", Args: []any{"L" + k, ""}, Ret: ret, Begin: r.Begin, End: r.End}
			sel := []*vrt.OpRec{pseudo}
			for _, o := range ops {
				if o.Name == "Range" {
					continue
				}
				if n := o.Args[0].(string); n[1:] == k || n == "C" {
					sel = append(sel, o)
				}
			}
			if !lin.Check(sel, init, Step, nil) {
				if visited {
					e.Fail("Range visited %s=%s, a value the key had at no moment of the call (initially %v): %s", k, v, init, lin.Describe(ops))
				} else {
					e.Fail("Range missed key %s, which was present throughout (initially %v): %s", k, init, lin.Describe(ops))
				}
				return
			}
		}
	}
}

// Mixed is a family of programs for the given number of threads and operations each: a, b and c
// choose where every thread starts in the alphabet and how it moves through it.
func Mixed(alpha []string, threads, ops, a, b, c int) [][]string {
	var r [][]string
	for t := 0; t < threads; t++ {
		var p []string
		for i := 0; i < ops; i++ {
			p = append(p, alpha[(a*t+b*i+c+t*i)%len(alpha)])
		}
		r = append(r, p)
	}
	return r
}
