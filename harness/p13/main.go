// P13: xtask.Do returns one outcome, cleans up once, leaks nothing.
package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"strings"
	"sync/atomic"
	"time"

	"github.com/chenquan/go-pkg/xtask"
	"github.com/chenquan/go-pkg/zverif/h/lib/ctxs"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P13", scenarios) }

type badErr struct{ code int }

func (b *badErr) Error() string { return fmt.Sprint("bad ", b.code) }

// conf: how the function behaves, how the context ends, which entry point is used.
//
// fn: a string of steps: s a step, R wait until released by another thread, D wait until Do has
// returned, C cancel the context itself, c wait for the context to end, n another Do inside; the
// last letter is the outcome: 0 nil, e an error, w the context's error wrapped, k the very error
// context.Canceled, p panic with a string, E panic with an error, S panic with a struct, r a runtime
// error.
// ctx: bg never ends, before, cancel (another thread cancels), parent (another thread cancels the parent),
// timeout, timeout0, deadline-past, both (cancel and timeout).
// entry: do, nodefer, timeout.
type conf struct {
	fn    string
	ctx   string
	entry string
	defr  string // plain, slow, nil
}

func (c conf) String() string {
	return fmt.Sprintf("%s fn=%s ctx=%s defer=%s", c.entry, c.fn, c.ctx, c.defr)
}

// one runs one Do and checks its outcome.
func one(x *vrt.X, c conf, tag string, released chan struct{}) {
	var ctx context.Context = context.Background()
	cancel := func() {}
	limit := time.Duration(0)
	switch c.ctx {
	case "before", "cancel":
		ctx, cancel = context.WithCancel(ctx)
	case "parent":
		ctx, cancel = context.WithCancel(ctx)
		ctx = context.WithValue(ctx, "k", 1)
		var c2 func()
		ctx, c2 = context.WithCancel(ctx)
		defer c2()
	case "own":
		ctx, cancel = ctxs.Own(tag)
		once := cancel
		var called uint32
		cancel = func() {
			if atomic.AddUint32(&called, 1) == 1 {
				once()
			}
		}
	case "far":
		ctx, cancel = context.WithCancel(ctx)
		ctx = ctxs.Far(ctx)
	case "farbefore":
		ctx, cancel = context.WithCancel(ctx)
		ctx = ctxs.Far(ctx)
		cancel()
	case "both", "timeout":
		limit = 10 * time.Second
		ctx, cancel = context.WithTimeout(ctx, limit)
	case "timeout0":
		ctx, cancel = context.WithTimeout(ctx, 0)
	case "deadline-past":
		limit = -1
		ctx, cancel = context.WithTimeout(ctx, -time.Second)
	}
	if c.ctx == "before" {
		cancel()
	}
	want := errors.New("failed " + tag)
	var pv any
	text := ""
	kind := c.fn[len(c.fn)-1]
	switch kind {
	case 'k':
		want = context.Canceled
	case 'w':
		want = fmt.Errorf("wrapped: %w", context.Canceled)
	case '0':
		want = nil
	case 'p':
		pv, text = "went wrong "+tag, "went wrong "+tag
	case 'E':
		pv, text = &badErr{77}, "bad 77"
	case 'S':
		pv, text = struct{ A, B int }{3141, 5926}, "{A:3141 B:5926}"
	case 'r':
		text = "index out of range"
	}
	back := make(chan struct{})
	fn := func() error {
		x.Enter("fn " + tag)
		for i := 0; i < len(c.fn)-1; i++ {
			switch c.fn[i] {
			case 's':
				x.Step()
			case 'R':
				<-released
			case 'D':
				<-back
			case 'C':
				cancel()
			case 'c':
				<-ctx.Done()
			case 'n':
				n := 0
				inner := errors.New("inner")
				if err := xtask.Do(ctx, func() error { n++; return inner }, nil); err != inner && (err == nil || err != ctx.Err()) {
					x.Fail("inner Do returned %v", err)
				}
			}
		}
		x.Enter("end " + tag)
		switch {
		case pv != nil:
			panic(pv)
		case kind == 'r':
			var a []int
			return fmt.Errorf("%d", a[len(a)+1])
		}
		return want
	}
	deferFunc := func() {
		if c.defr == "slow" {
			x.Step()
		}
		x.Enter("defer " + tag)
	}
	if c.defr == "nil" {
		deferFunc = nil
	}
	if c.ctx == "cancel" || c.ctx == "parent" || c.ctx == "both" || c.ctx == "own" || c.ctx == "far" {
		x.Fault("canceller "+tag, func() { cancel() })
	}
	var err error
	var got any
	pre := ctx.Err() != nil
	d := time.Duration(0) // for DoWithTimeout, which makes its own context
	if c.entry == "timeout" {
		cancel()
		switch c.ctx {
		case "bg":
			d = 1 << 50
		case "timeout":
			d = 10 * time.Second
		case "max":
			d = math.MaxInt64
		case "huge":
			d = 1<<62 + 12345
		case "tiny":
			d = 1
		case "odd":
			d = 1500001
		case "deadline-past":
			d = -1
		}
		limit, pre = d, d <= 0
	}
	t0 := time.Now()
	func() {
		defer func() { got = recover() }()
		switch c.entry {
		case "do":
			err = xtask.Do(ctx, fn, deferFunc)
		case "nodefer":
			err = xtask.DoWithoutDefer(ctx, fn)
		case "timeout":
			err = xtask.DoWithTimeout(d, fn, deferFunc)
		}
	}()
	post := ctx.Err()
	if c.entry == "timeout" {
		if time.Since(t0) >= limit {
			post = context.DeadlineExceeded
		} else {
			post = nil
		}
	}
	if c.entry != "nodefer" && c.defr != "nil" {
		if n := x.Enter("defer " + tag); n != 2 {
			x.Fail("the deferred function had run %d times when Do returned", n-1)
		}
	}
	started, ended := x.Enter("fn "+tag)-1, x.Enter("end "+tag)-1
	close(back)
	switch {
	case got != nil:
		if started == 0 || ended == 0 || text == "" || !strings.Contains(fmt.Sprintf("%+v", got), text) {
			x.Fail("Do panicked with %.80v (function %s, panics with %q)", got, c.fn, text)
		}
		x.Emit("%s panic", tag)
	case post != nil && err == post:
		x.Emit("%s context error", tag)
	case err == want && text == "":
		if ended == 0 {
			x.Fail("Do returned %v before the function had", err)
		}
		x.Emit("%s result", tag)
	default:
		x.Fail("Do returned %v; the function %s returns %v, panics with %q, has ended: %v; the context's error is %v", err, c.fn, want, text, ended > 0, post)
	}
	if pre && (err != post || got != nil) {
		x.Fail("Do returned %v (panic %v) although the context had ended before", err, got)
	}
	x.AtEnd(func(e *vrt.End) {
		if n := e.Total("fn "+tag) - 1; n > 1 || n > 0 && pre {
			e.Fail("the function ran %d times (context ended before the call: %v)", n, pre)
		}
		if c.entry != "nodefer" && c.defr != "nil" {
			if n := e.Total("defer "+tag) - 1; n != 1 {
				e.Fail("the deferred function ran %d times", n)
			}
		}
	})
	cancel()
}

func scen(cs ...conf) *vrt.Scenario {
	var names []string
	for _, c := range cs {
		names = append(names, c.String())
	}
	bounds := []int{-1}
	if len(cs) > 1 {
		bounds = []int{1, 2}
	}
	return &vrt.Scenario{Name: strings.Join(names, " | "), Bounds: bounds, Body: func(x *vrt.X) {
		released := make(chan struct{})
		for i, c := range cs {
			i, c := i, c
			x.Go(fmt.Sprint("caller", i), func() { one(x, c, fmt.Sprint(i), released) })
		}
		x.Fault("releaser", func() { close(released) })
		x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
	}}
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	pres := []string{"", "s", "R", "Rs", "ss", "n", "sn"}
	if deep {
		pres = append(pres, "sRs", "nn", "sss", "RRs", "nRs")
	}
	outs := "0ewkpESr"
	for _, out := range outs {
		for _, ctx := range []string{"bg", "before", "cancel", "parent", "both", "timeout", "timeout0", "deadline-past", "own", "far", "farbefore"} {
			ps := append([]string(nil), pres...)
			if ctx != "bg" {
				ps = append(ps, "D", "Ds", "c", "sc")
			}
			if ctx == "cancel" || ctx == "both" || ctx == "timeout" {
				ps = append(ps, "C", "Cs", "CD", "Cc", "sCs")
			}
			for _, p := range ps {
				for _, d := range []string{"plain", "slow", "nil"} {
					if d == "slow" && len(p) > 1 {
						continue
					}
					r = append(r, scen(conf{p + string(out), ctx, "do", d}))
				}
				if len(p) < 2 {
					r = append(r, scen(conf{p + string(out), ctx, "nodefer", "nil"}))
				}
				if (ctx == "bg" || ctx == "timeout" || ctx == "timeout0" || ctx == "deadline-past") && !strings.ContainsAny(p, "Ccn") {
					r = append(r, scen(conf{p + string(out), ctx, "timeout", "plain"}), scen(conf{p + string(out), ctx, "timeout", "nil"}))
				}
			}
		}
	}
	for _, out := range outs {
		for _, ctx := range []string{"max", "huge", "tiny", "odd"} {
			for _, p := range []string{"", "s", "R", "D", "sR", "Ds"} {
				r = append(r, scen(conf{p + string(out), ctx, "timeout", "plain"}), scen(conf{p + string(out), ctx, "timeout", "nil"}))
			}
		}
	}
	two := []conf{{"se", "cancel", "do", "plain"}, {"p", "cancel", "do", "plain"}, {"0", "bg", "do", "plain"}, {"Dp", "timeout", "do", "plain"}, {"s0", "timeout", "timeout", "plain"}}
	for i, a := range two {
		for _, b := range two[i:] {
			r = append(r, scen(a, b))
		}
	}
	// many callers at a time, under a delay bound
	many := []conf{{"se", "cancel", "do", "plain"}, {"p", "cancel", "do", "plain"}, {"0", "bg", "do", "slow"}, {"Dp", "timeout", "do", "plain"}, {"s0", "timeout", "timeout", "plain"}, {"CDr", "cancel", "do", "nil"}, {"Rw", "before", "nodefer", "nil"}, {"nk", "both", "do", "plain"}}
	for i := range many {
		for n := 3; n <= 9; n += 3 {
			for st := 1; st <= 3; st++ {
				var cs []conf
				for j := 0; j < n; j++ {
					cs = append(cs, many[(i+j*st)%len(many)])
				}
				d := 1
				if n < 4 {
					d = 2
				}
				if deep {
					d++
				}
				r = append(r, scen(cs...).Delays(0, d))
			}
		}
	}
	return r
}
