// Package streams builds sequential stream pipelines together with the list functions they stand for.
package streams

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/chenquan/go-pkg/xstream"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

// Stage is one operator.
//
//	b Buffer(n)  k Peek  s Skip(n)  l Limit(n)  t Tail(n)  d Distinct by value mod n (0: itself)
//	f Filter (value mod n != 0; 0: all, 1: none)  w Walk (n: 0 sends nothing, 1 the item, 2 the item and a
//	second value, 3 as many copies as its value mod 3)  m Map  x FlatMap
//
// Opt chooses the work size option of f, w, m, x: 0 none, 1 WithWorkSize(1), 2 WithWorkSize(0), 3 WithWorkSize(-2),
// 4 WithOption(&Options{}), 5 WithWorkSize(3) then WithWorkSize(1); 9 none, and the callbacks are not checked.
type Stage struct {
	Op  byte
	N   int
	Opt int
}

func (s Stage) String() string {
	r := string(s.Op)
	switch s.Op {
	case 'k', 'm', 'x':
	default:
		r += fmt.Sprint(s.N)
	}
	if s.Opt > 0 {
		r += fmt.Sprint("/", s.Opt)
	}
	return r
}

// Num is the number that an item stands for.
func Num(v any) int {
	switch t := v.(type) {
	case nil:
		return 0
	case int:
		return t
	case []any:
		return len(t)
	}
	return 1
}

func key(v any, n int) any {
	if n == 0 {
		if l, ok := v.([]any); ok {
			return fmt.Sprint("list", l)
		}
		if v != nil && !reflect.TypeOf(v).Comparable() {
			return fmt.Sprintf("%#v", v)
		}
		return v
	}
	return Num(v) % n
}

func mapped(v any) any {
	switch t := v.(type) {
	case int:
		return t + 10
	case nil, []any, []int, error:
		return v
	}
	return fmt.Sprintf("<%v>", v)
}

func walked(v any, n int) []any {
	switch n {
	case 0:
		return nil
	case 1:
		return []any{v}
	case 2:
		return []any{v, Num(v) + 100}
	}
	var r []any
	for i := 0; i < Num(v)%3; i++ {
		r = append(r, Num(v)+1000*(i+1))
	}
	return r
}

// List is the list function of the stage.
func (s Stage) List(in []any) (out []any) {
	switch s.Op {
	case 'b', 'k':
		return in
	case 's':
		if s.N > len(in) {
			return nil
		}
		return in[s.N:]
	case 'l':
		if s.N > len(in) {
			return in
		}
		return in[:s.N]
	case 't':
		if s.N > len(in) {
			return in
		}
		return in[len(in)-s.N:]
	case 'd':
		seen := map[any]bool{}
		for _, v := range in {
			if k := key(v, s.N); !seen[k] {
				seen[k] = true
				out = append(out, v)
			}
		}
	case 'f':
		for _, v := range in {
			if s.N == 0 || Num(v)%s.N != 0 {
				out = append(out, v)
			}
		}
	case 'w':
		for _, v := range in {
			out = append(out, walked(v, s.N)...)
		}
	case 'm':
		for _, v := range in {
			out = append(out, mapped(v))
		}
	case 'x':
		for _, v := range in {
			for _, e := range flat(v) {
				out = append(out, mapped(e))
			}
		}
	}
	return
}

func flat(v any) []any {
	if l, ok := v.([]any); ok {
		return l
	}
	return []any{v}
}

func (s Stage) opts() []xstream.Option {
	switch s.Opt {
	case 1:
		return []xstream.Option{xstream.WithWorkSize(1)}
	case 2:
		return []xstream.Option{xstream.WithWorkSize(0)}
	case 3:
		return []xstream.Option{xstream.WithWorkSize(-2)}
	case 4:
		return []xstream.Option{xstream.WithOption(&xstream.Options{})}
	case 5:
		return []xstream.Option{xstream.WithWorkSize(3), xstream.WithWorkSize(1)}
	}
	return nil
}

// Same compares two items.
func Same(a, b any) bool { return reflect.DeepEqual(a, b) }

// Calls checks the calls of one callback: exactly the items of the list, in order.
type Calls struct {
	x    *vrt.X
	Name string
	reg  int
	want []any
}

// NewCalls makes the checker of a callback; reg is a register of its own.
func NewCalls(x *vrt.X, name string, reg int, want []any) *Calls {
	return &Calls{x, name, reg, want}
}

// See records a call.
func (c *Calls) See(v any) {
	i := c.x.Reg(c.reg)
	c.x.Note("%s gets %v", c.Name, v)
	if i >= len(c.want) || !Same(v, c.want[i]) {
		c.x.Fail("call number %d of %s is for %v; the calls should be for %v", i+1, c.Name, v, c.want)
	}
	c.x.SetReg(c.reg, i+1)
}

// End checks that all calls were made.
func (c *Calls) End(e *vrt.End) {
	if i := c.x.Reg(c.reg); i != len(c.want) {
		e.Fail("%s was called %d times; the calls should be for %v", c.Name, i, c.want)
	}
}

// Count is the number of calls so far.
func (c *Calls) Count() int { return c.x.Reg(c.reg) }

// Apply adds the stage to the stream; in is the list it works on.
func (s Stage) Apply(x *vrt.X, st *xstream.Stream, idx int, in []any) *xstream.Stream {
	calls := func(want []any) func(any) {
		if s.Opt == 9 {
			return func(any) {}
		}
		c := NewCalls(x, fmt.Sprintf("the callback of stage %d (%v)", idx+1, s), idx, want)
		x.AtEnd(func(e *vrt.End) { c.End(e) })
		return c.See
	}
	switch s.Op {
	case 'b':
		return st.Buffer(s.N)
	case 'k':
		return st.Peek(xstream.ForEachFunc(calls(in)))
	case 's':
		return st.Skip(s.N)
	case 'l':
		return st.Limit(s.N)
	case 't':
		return st.Tail(s.N)
	case 'd':
		see := calls(in)
		return st.Distinct(func(v any) any { see(v); return key(v, s.N) })
	case 'f':
		see := calls(in)
		return st.Filter(func(v any) bool { see(v); return s.N == 0 || Num(v)%s.N != 0 }, s.opts()...)
	case 'w':
		see := calls(in)
		return st.Walk(func(v any, pipe chan<- any) {
			see(v)
			for _, e := range walked(v, s.N) {
				pipe <- e
			}
		}, s.opts()...)
	case 'm':
		see := calls(in)
		return st.Map(func(v any) any { see(v); return mapped(v) }, s.opts()...)
	case 'x':
		var all []any
		for _, v := range in {
			all = append(all, flat(v)...)
		}
		see := calls(all)
		return st.FlatMap(func(v any) any { see(v); return mapped(v) }, s.opts()...)
	}
	panic("unknown stage")
}

// Source makes the stream of a list: 0 Of, 1 From, 2 Range of a filled closed channel, 3 Range of a
// channel fed by a thread.
func Source(x *vrt.X, kind int, in []any) *xstream.Stream {
	switch kind {
	case 0:
		return xstream.Of(append([]any(nil), in...)...)
	case 1:
		return xstream.From(func(source chan<- any) {
			for _, v := range in {
				source <- v
			}
		})
	case 2:
		ch := make(chan any, len(in))
		for _, v := range in {
			ch <- v
		}
		close(ch)
		return xstream.Range(ch)
	}
	ch := make(chan any)
	x.Go("feeder", func() {
		for _, v := range in {
			ch <- v
		}
		close(ch)
	})
	return xstream.Range(ch)
}

// Build makes the source and the stages; it returns the stream and the list it should deliver.
func Build(x *vrt.X, source int, in []any, stages []Stage) (*xstream.Stream, []any) {
	return BuildAt(x, 0, source, in, stages)
}

// BuildAt is Build with the stages' registers from base on.
func BuildAt(x *vrt.X, base, source int, in []any, stages []Stage) (*xstream.Stream, []any) {
	st := Source(x, source, in)
	for i, s := range stages {
		out := s.List(in)
		st = s.Apply(x, st, base+i, in)
		in = out
	}
	return st, in
}

// Terminals: c Chan, f Foreach, o ForeachOrdered, n Count, 1 FindFirst, l FindLast, C Collection, d Done.
const Terminals = "cfon1lCd"

// Finish ends the stream and checks the result against the list. The terminal callback uses register reg.
func Finish(x *vrt.X, st *xstream.Stream, term byte, want []any, reg int) {
	one := func(v any, err error, w []any, name string) {
		switch {
		case len(w) == 0:
			if err == nil || err != xstream.ErrNoElement || v != nil {
				x.Fail("%s of an empty stream returned %v, %v", name, v, err)
			}
		case err != nil || !Same(v, w[0]):
			x.Fail("%s returned %v, %v, want %v", name, v, err, w[0])
		}
	}
	see := func(want []any) (func(any), func()) {
		c := NewCalls(x, "the consumer", reg, want)
		return c.See, func() {
			if c.Count() != len(want) {
				x.Fail("the stream delivered %d elements, want %v", c.Count(), want)
			}
		}
	}
	switch term {
	case 'c':
		f, end := see(want)
		for v := range st.Chan() {
			f(v)
		}
		end()
		if v, ok := <-st.Chan(); ok {
			x.Fail("the stream delivered %v after it was closed", v)
		}
	case 'f':
		f, end := see(want)
		st.Foreach(f)
		end()
	case 'o':
		var rev []any
		for i := len(want) - 1; i >= 0; i-- {
			rev = append(rev, want[i])
		}
		f, end := see(rev)
		st.ForeachOrdered(f)
		end()
	case 'n':
		if n := st.Count(); n != len(want) {
			x.Fail("Count returned %d, want %d", n, len(want))
		}
	case '1':
		v, err := st.FindFirst()
		one(v, err, want, "FindFirst")
	case 'l':
		v, err := st.FindLast()
		w := want
		if len(w) > 0 {
			w = w[len(w)-1:]
		}
		one(v, err, w, "FindLast")
	case 'C':
		f, end := see(want)
		n := 0
		st.Collection(xstream.CollectorFunc(func(c <-chan any) {
			n++
			for v := range c {
				f(v)
			}
		}))
		if n != 1 {
			x.Fail("Collection called the collector %d times", n)
		}
		end()
	case 'd':
		st.Done()
		if v, ok := <-st.Chan(); ok {
			x.Fail("Done left element %v in the stream", v)
		}
	}
}

// Show names a pipeline.
func Show(stages []Stage) string {
	var p []string
	for _, s := range stages {
		p = append(p, s.String())
	}
	return strings.Join(p, ".")
}
