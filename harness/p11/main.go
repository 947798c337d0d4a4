// P11: write-once cells accept exactly one write, of any value.
package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/chenquan/go-pkg/xonce"
	"github.com/chenquan/go-pkg/zverif/lin"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P11", scenarios) }

type point struct{ a, b int }

// value is the k-th kind of value.
func value(k int) interface{} {
	switch k {
	case 0:
		return 1
	case 1:
		return 2
	case 2:
		return "one"
	case 3:
		return nil
	case 4:
		return []int{1}
	case 5:
		return (*point)(nil)
	case 6:
		return math.NaN()
	case 7:
		return struct{}{}
	case 8:
		return map[string]int{"a": 1}
	case 9:
		return fmt.Errorf("an error")
	case 10:
		return 0
	case 11:
		return false
	}
	return ""
}

const kinds = 13

func name(v interface{}) string { return fmt.Sprintf("%T(%v)", v, v) }

// op runs one operation: W write, R read.
func do(x *vrt.X, c xonce.Once, read func() interface{}, op byte, k int) {
	if op == 'W' {
		x.Call("Write", func() any {
			defer func() {
				if r := recover(); r != nil {
					x.Fail("Write(%s) panicked: %v", name(value(k)), r)
				}
			}()
			return c.Write(value(k))
		}, name(value(k)))
		return
	}
	x.Call("Read", func() any { return name(read()) })
}

const empty = "?"

// step is the sequential cell: empty, or the name of the winning value.
func step(s string, o *vrt.OpRec) []string {
	if o.Name == "Write" {
		ok := s == empty
		if o.End > 0 && o.Ret.(bool) != ok {
			return nil
		}
		if ok {
			return []string{o.Args[0].(string)}
		}
		return []string{s}
	}
	want := s
	if s == empty {
		want = name(nil)
	}
	if o.End > 0 && o.Ret.(string) != want {
		return nil
	}
	return []string{s}
}

func sequential(deep bool) func(c *vrt.Enum) {
	return func(c *vrt.Enum) {
		n := 3
		if deep {
			n = 4
		}
		var rec func(vals []int)
		rec = func(vals []int) {
			if len(vals) > 0 && c.Case("cell values written in order", fmt.Sprint(vals)) {
				cell := xonce.NewValue()
				ch := xonce.NewChan()
				var zero xonce.Value
				if v := cell.Value(); v != nil {
					c.Fail("a new Value holds %v", v)
				}
				for i, k := range vals {
					if ok := cell.Write(value(k)); ok != (i == 0) {
						c.Fail("Value: write number %d reported %v", i+1, ok)
					}
					if ok := zero.Write(value(k)); ok != (i == 0) {
						c.Fail("zero Value: write number %d reported %v", i+1, ok)
					}
					if ok := ch.Write(value(k)); ok != (i == 0) {
						c.Fail("Chan: write number %d reported %v", i+1, ok)
					}
					if g, w := name(cell.Value()), name(value(vals[0])); g != w {
						c.Fail("Value holds %s after write number %d, want %s", g, i+1, w)
					}
				}
				v, ok := <-ch.Chan()
				if !ok || name(v) != name(value(vals[0])) {
					c.Fail("Chan delivered %s, %v, want %s", name(v), ok, name(value(vals[0])))
				}
				for i := 0; i < 2; i++ {
					if v, ok := <-ch.Chan(); ok {
						c.Fail("Chan delivered a second value %s", name(v))
					}
				}
				if ch.Write(value(vals[0])) {
					c.Fail("Chan accepted a write after delivery")
				}
			}
			if len(vals) < n {
				for k := 0; k < kinds; k++ {
					rec(append(vals[:len(vals):len(vals)], k))
				}
			}
		}
		rec(nil)
	}
}

// cells explores writers and readers of one Value; the kinds of the values written are enumerated among n.
func cells(n int, progs ...string) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("Value %s, %d kinds of values", strings.Join(progs, " | "), n), Bounds: []int{-1}, Body: func(x *vrt.X) {
		cell := xonce.NewValue()
		for i, p := range progs {
			var ks []int
			for j := range p {
				k := 0
				if p[j] == 'W' {
					k = x.Choose(n)
				}
				ks = append(ks, k)
			}
			i, p := i, p
			x.Go(fmt.Sprint("t", i), func() {
				for j := range p {
					do(x, cell, cell.Value, p[j], ks[j])
				}
			})
		}
		x.Wait()
		do(x, cell, cell.Value, 'R', 0)
		do(x, cell, cell.Value, 'R', 0)
		x.AtEnd(func(e *vrt.End) {
			e.NoBlocked()
			if ops := e.Ops(); !lin.Check(ops, empty, step, nil) {
				e.Fail("not a write-once cell: %s", lin.Describe(ops))
			}
		})
	}}
}

// chans explores writers (W) and receivers (R: receives until the channel is closed; r: receives once) of one Chan.
func chans(n int, progs ...string) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("Chan %s, %d kinds of values", strings.Join(progs, " | "), n), Bounds: []int{-1}, Body: func(x *vrt.X) {
		c := xonce.NewChan()
		for i, p := range progs {
			var ks []int
			for j := range p {
				k := 0
				if p[j] == 'W' {
					k = x.Choose(n)
				}
				ks = append(ks, k)
			}
			i, p := i, p
			x.Go(fmt.Sprint("t", i), func() {
				for j := range p {
					switch p[j] {
					case 'W':
						do(x, c, nil, 'W', ks[j])
					case 'r':
						x.Call("recv", func() any {
							v, ok := <-c.Chan()
							if ok {
								x.Emit("received %s", name(v))
								return name(v)
							}
							return "closed"
						})
					case 'R':
						k := 0
						for v := range c.Chan() {
							x.Emit("received %s", name(v))
							if k++; k > 3 {
								break
							}
						}
					}
				}
			})
		}
		x.Wait()
		v, ok := <-c.Chan()
		if ok {
			x.Emit("received %s", name(v))
			if v2, ok := <-c.Chan(); ok {
				x.Fail("a second value, %s, was delivered", name(v2))
			}
		}
		x.AtEnd(func(e *vrt.End) {
			e.NoBlocked()
			won := ""
			first := 1 << 60 // the earliest end of a write
			for _, o := range e.Ops() {
				if o.Name == "Write" && o.End > 0 && o.End < first {
					first = o.End
				}
			}
			for _, o := range e.Ops() {
				if o.Name != "Write" || o.Ret != true {
					continue
				}
				if won != "" {
					e.Fail("two writes succeeded: %s", lin.Describe(e.Ops()))
				}
				if o.Begin > first {
					e.Fail("a write succeeded after another had returned: %s", lin.Describe(e.Ops()))
				}
				won = "received " + o.Args[0].(string)
			}
			if won == "" {
				e.Fail("no write succeeded: %s", lin.Describe(e.Ops()))
			}
			if em := e.Emits(); len(em) != 1 || em[0] != won {
				e.Fail("the winning write was %q, delivered: %v", won, em)
			}
			for _, o := range e.Ops() {
				if o.Name == "recv" && o.Ret == "closed" {
					ended := false
					for _, w := range e.Ops() {
						ended = ended || w.Name == "Write" && w.Begin < o.End
					}
					if !ended {
						e.Fail("the channel was closed before any write: %s", lin.Describe(e.Ops()))
					}
				}
			}
		})
	}}
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	r := vrt.EnumScenarios("sequences of writes", 4, sequential(deep))
	n2, n3 := kinds, 6
	if deep {
		n2, n3 = kinds, 10
	}
	for _, f := range []func(int, ...string) *vrt.Scenario{cells, chans} {
		r = append(r,
			f(n2, "W", "W"), f(n2, "W", "R"), f(n2, "W", "W", "R"), f(n3, "WW", "W"), f(n3, "WR", "WR"), f(n3, "WW", "WW"),
			f(n3, "W", "W", "W"), f(n3, "WR", "W", "R"), f(n3, "W", "WR", "R"), f(2, "W", "W", "WR"), f(2, "W", "W", "W", "R"), f(n3, "W", "W", "R", "R"))
		if deep {
			r = append(r, f(n3, "WWR", "WR", "R"), f(2, "WR", "WR", "WR"), f(3, "W", "W", "W", "W"), f(n3, "WW", "WR", "RW"))
		}
	}
	r = append(r, chans(n3, "W", "r", "r"), chans(n3, "W", "W", "r"), chans(n3, "W", "W", "r", "r"), chans(n3, "Wr", "Wr"))
	for _, f := range []func(int, ...string) *vrt.Scenario{cells, chans} {
		d := 2
		if deep {
			d = 3
		}
		r = append(r, f(2, "W", "W", "W", "W", "W", "W", "WR", "R").Delays(0, d), f(1, "WWWWWW", "WWWWWW", "WWWWWWR").Delays(0, d+1), f(1, "WR", "WR", "WR", "WR", "WR", "WR", "WR", "WR", "WR", "WR").Delays(0, d),
			f(1, "R", "R", "R", "R", "W", "W", "W", "R", "R").Delays(0, d))
	}
	for _, s := range []string{"RR", "RRR"} {
		r = append(r, cells(n3, "W", s), cells(n3, "W", "W", s), cells(2, "W", s, "R"))
	}
	return r
}
