// P12: barriers stop on cancellation and lose no element.
package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/zverif/h/lib/ctxs"
	"github.com/chenquan/go-pkg/zverif/h/lib/odd"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P12", scenarios) }

// conf is one scenario. Each entry of users is a number of barrier operations in one thread, each
// entry of peers a number of plain channel operations in the opposite direction in one thread.
type conf struct {
	write  bool
	cap    int    // capacity; -1: nil channel
	fill   int    // elements in the buffer beforehand
	cancel string // none, before, during, parent, timeout, twice, own, far
	users  []int
	peers  []int
	close  bool // the writing peer closes the channel afterwards (readers only)
	shared bool // all users share one barrier
}

func (c conf) String() string {
	k := "Read"
	if c.write {
		k = "Write"
	}
	s := fmt.Sprintf("%s cap=%d fill=%d cancel=%s users=%v peers=%v", k, c.cap, c.fill, c.cancel, c.users, c.peers)
	if c.close {
		s += " close"
	}
	if !c.shared {
		s += " own barriers"
	}
	return s
}

func scen(c conf, bounds ...int) *vrt.Scenario {
	if len(bounds) == 0 {
		bounds = []int{-1}
	}
	return &vrt.Scenario{Name: c.String(), Bounds: bounds, Body: func(x *vrt.X) {
		var ch chan interface{}
		if c.cap >= 0 {
			ch = make(chan interface{}, c.cap)
		}
		// the elements put in and taken out, by thread
		var in, out []*[]string
		lane := func(l *[]*[]string) *[]string {
			p := new([]string)
			*l = append(*l, p)
			return p
		}
		inFill, rest := lane(&in), lane(&out)
		for i := 0; i < c.fill; i++ {
			v := fmt.Sprint("f", i)
			ch <- v
			*inFill = append(*inFill, v)
		}
		ctx, cancel := context.WithCancel(context.Background())
		switch c.cancel {
		case "before":
			cancel()
		case "parent":
			var c2 context.CancelFunc
			ctx, c2 = context.WithCancel(context.WithValue(ctx, "k", "v"))
			defer c2()
		case "own":
			ctx, cancel = ctxs.Own("it")
		case "far":
			ctx = ctxs.Far(ctx)
		case "timeout":
			var c2 context.CancelFunc
			ctx, c2 = context.WithTimeout(ctx, time.Second)
			defer c2()
		}
		mk := func() func(v string) (string, bool) {
			if c.write {
				b := xbarrier.NewWriteBarrier(ctx, ch)
				return func(v string) (string, bool) { return v, b.Write(v) }
			}
			b := xbarrier.NewReadBarrier(ctx, ch)
			return func(string) (string, bool) {
				v, ok := b.Read()
				if v == nil {
					return "nil", ok
				}
				return v.(string), ok
			}
		}
		op := mk()
		for i, n := range c.users {
			i, n := i, n
			o := op
			if !c.shared {
				o = mk()
			}
			l := &out
			if c.write {
				l = &in
			}
			k := lane(l)
			x.Go(fmt.Sprint("user", i), func() {
				for j := 0; j < n; j++ {
					pre := ctx.Err() != nil
					v, ok := o(fmt.Sprintf("u%d.%d", i, j))
					post := ctx.Err() != nil
					if ok && pre {
						x.Fail("an operation on a cancelled context succeeded (%s)", v)
					}
					if !ok && !post {
						x.Fail("an operation failed but its context is live")
					}
					if !ok && !c.write && v != "nil" {
						x.Fail("a failed Read returned %s", v)
					}
					x.Emit("user%d.%d %s %v", i, j, v, ok)
					if ok && v == "nil" && !c.close {
						x.Fail("Read returned nil from an open channel")
					}
					if ok && v != "nil" {
						*k = append(*k, v)
					}
				}
			})
		}
		// the peers
		for i, n := range c.peers {
			i, n := i, n
			l := &in
			if c.write {
				l = &out
			}
			k := lane(l)
			x.Daemon(fmt.Sprint("peer", i), func() {
				for j := 0; j < n; j++ {
					if c.write {
						v := (<-ch).(string)
						*k = append(*k, v)
					} else {
						v := fmt.Sprintf("p%d.%d", i, j)
						ch <- v
						*k = append(*k, v)
					}
				}
				if c.close {
					close(ch)
				}
			})
		}
		if c.cancel == "during" || c.cancel == "parent" || c.cancel == "twice" || c.cancel == "own" || c.cancel == "far" {
			x.Fault("canceller", func() {
				cancel()
				if c.cancel == "twice" {
					cancel()
				}
			})
		}
		x.Quiesce()
	drain:
		for {
			select {
			case v, ok := <-ch:
				if !ok {
					break drain
				}
				*rest = append(*rest, v.(string))
				x.Quiesce()
			default:
				break drain
			}
		}
		cancelled := ctx.Err() != nil
		var a, b []string
		for _, l := range in {
			a = append(a, *l...)
		}
		for _, l := range out {
			b = append(b, *l...)
			last := map[byte]string{} // each peer's or user's elements arrive in order
			for _, v := range *l {
				if p := last[v[1]]; v[0] != 'f' && p != "" && (len(p) > len(v) || len(p) == len(v) && p >= v) {
					x.Fail("one receiver got %s after %s", v, p)
				}
				if v[0] != 'f' {
					last[v[1]] = v
				}
			}
		}
		sort.Strings(a)
		sort.Strings(b)
		if strings.Join(a, " ") != strings.Join(b, " ") {
			x.Fail("put in: %v, taken out: %v", a, b)
		}
		x.AtEnd(func(e *vrt.End) {
			if cancelled || c.cap >= 0 && (c.close || !c.write && total(c.users) <= c.fill+total(c.peers) || c.write && total(c.users) <= max(0, c.cap-c.fill)+total(c.peers)) {
				e.NoBlocked()
			}
		})
	}}
}

// values passes one element of every kind through a channel while the context ends.
func values(write bool, cap int, cancel string) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("elements of every kind write=%v cap=%d cancel=%s", write, cap, cancel), Bounds: []int{-1}, Body: func(x *vrt.X) {
		i := x.Choose(len(odd.Values)+1) - 1
		x.Note("%s", odd.Name(i))
		ch := make(chan any, cap)
		ctx, stop := context.WithCancel(context.Background())
		if cancel == "timeout" {
			ctx, stop = context.WithTimeout(context.Background(), time.Second)
		}
		// registers: 1 sent, 2 received
		x.Daemon("peer", func() {
			if write {
				if v := <-ch; odd.Index(v) != i {
					x.Fail("the channel had %s", odd.Name(odd.Index(v)))
				}
				x.SetReg(2, 1)
			} else {
				ch <- odd.At(i)
				x.SetReg(1, 1)
			}
		})
		x.Go("user", func() {
			if write {
				ok := xbarrier.NewWriteBarrier(ctx, ch).Write(odd.At(i))
				if !ok && ctx.Err() == nil {
					x.Fail("a write failed but its context is live")
				}
				if ok {
					x.SetReg(1, 1)
				}
				return
			}
			v, ok := xbarrier.NewReadBarrier(ctx, ch).Read()
			if ok && odd.Index(v) != i || !ok && v != nil {
				x.Fail("Read returned %s, %v", odd.Name(odd.Index(v)), ok)
			}
			if !ok && ctx.Err() == nil {
				x.Fail("a read failed but its context is live")
			}
			if ok {
				x.SetReg(2, 1)
			}
		})
		if cancel == "during" {
			x.Fault("canceller", func() { stop() })
		}
		x.AtEnd(func(e *vrt.End) {
			if n := x.Reg(1) - x.Reg(2); n != len(ch) {
				e.Fail("sent %d, received %d, in the channel %d", x.Reg(1), x.Reg(2), len(ch))
			}
			for _, b := range e.Blocked() {
				if strings.HasPrefix(b, "user") {
					e.Fail("%s", b)
				}
			}
		})
	}}
}

func total(l []int) int {
	n := 0
	for _, k := range l {
		n += k
	}
	return n
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	for _, write := range []bool{false, true} {
		for cap := 0; cap <= 2; cap++ {
			for _, cancel := range []string{"none", "during", "timeout"} {
				r = append(r, values(write, cap, cancel))
			}
		}
	}
	for _, write := range []bool{false, true} {
		for _, cap := range []int{-1, 0, 1, 2} {
			for fill := 0; fill <= cap || fill == 0; fill++ {
				for _, cancel := range []string{"none", "before", "during", "parent", "timeout", "twice", "own", "far"} {
					add := func(users, peers []int, bounds ...int) {
						for _, cl := range []bool{false, true} {
							if cl && (write || len(peers) != 1 || cap < 0) {
								continue
							}
							for _, shared := range []bool{true, false} {
								if !shared && (len(users) < 2 || cancel != "none" && cancel != "during" && cancel != "timeout" && cancel != "before") {
									continue
								}
								r = append(r, scen(conf{write, cap, fill, cancel, users, peers, cl, shared}, bounds...))
							}
						}
					}
					add([]int{1}, nil)
					add([]int{2}, nil)
					add([]int{1}, []int{1})
					add([]int{2}, []int{1})
					add([]int{1}, []int{2})
					add([]int{2}, []int{2})
					add([]int{1, 1}, nil)
					add([]int{1, 1}, []int{1})
					if cancel == "during" || cancel == "timeout" || cancel == "none" {
						add([]int{1, 1}, []int{1, 1}, 2)
						add([]int{1, 1}, []int{2}, 2)
						if deep {
							add([]int{2, 1}, []int{2, 1}, 2)
							add([]int{1, 1, 1}, []int{2}, 2)
							add([]int{3}, []int{2, 1}, -1)
						}
					}
				}
			}
		}
	}
	// many users and peers, under a delay bound
	for _, write := range []bool{false, true} {
		for _, cap := range []int{0, 1, 3, 8} {
			for _, cancel := range []string{"none", "before", "during", "parent", "timeout"} {
				for _, up := range [][2][]int{{{30}, {30}}, {{30}, {10, 10, 10}}, {{8, 8, 8}, {30}}, {{5, 5, 5, 5, 5, 5}, {3, 3, 3, 3}}, {{1, 1, 1, 1, 1, 1, 1, 1}, {1, 1, 1, 1}}, {{20}, {8}}} {
					for _, cl := range []bool{false, true} {
						if cl && (write || len(up[1]) != 1) {
							continue
						}
						d := 1
						if total(up[0]) < 9 {
							d++
						}
						if deep {
							d++
						}
						r = append(r, scen(conf{write, cap, cap / 2, cancel, up[0], up[1], cl, cap < 3}).Delays(0, d))
					}
				}
			}
		}
	}
	return r
}
