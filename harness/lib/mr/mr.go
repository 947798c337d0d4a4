// Package mr drives xmapreduce.
package mr

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xmapreduce"
	"github.com/chenquan/go-pkg/zverif/h/lib/ctxs"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

// Conf is one program.
type Conf struct {
	// Items has a letter per generated element, saying what its map call does: 0-3 writes as many
	// values, s takes a step and writes one, c waits for the cancellation and writes one, f writes
	// until a write fails (at most worker size + 2 times), l leaves its one write to a goroutine of its own and
	// waits for it, n writes nil, e is the element nil (and writes one).
	Items string
	Size  int    // worker size; 0: no option
	Ctx   string // bg, live (a cancellable context that stays live), before, cancel, parent, timeout
	// Use says how the output is consumed: range, stream (MapStream and Foreach), count (MapStream
	// and Count), a number (reads that many and stops), never.
	Use string
	// Hold: the generator does not end after its elements, it waits for something that never comes.
	Hold bool
}

func (c Conf) String() string {
	if n := len(c.Items); n > 100 {
		c.Items = fmt.Sprintf("%s... (%d)", c.Items[:20], n)
	}
	if c.Hold {
		return fmt.Sprintf("items %q then nothing size %d ctx %s use %s", c.Items, c.Size, c.Ctx, c.Use)
	}
	return fmt.Sprintf("items %q size %d ctx %s use %s", c.Items, c.Size, c.Ctx, c.Use)
}

const (
	called = 1 << iota
	ended
)

// Run runs the program and checks it.
func Run(x *vrt.X, c Conf) {
	ctx, cancel := context.Background(), context.CancelFunc(func() {})
	switch c.Ctx {
	case "live", "before", "cancel":
		ctx, cancel = context.WithCancel(ctx)
	case "own":
		ctx, cancel = ctxs.Own("it")
	case "far", "farbefore":
		ctx, cancel = context.WithCancel(ctx)
		ctx = ctxs.Far(ctx)
	case "parent":
		ctx, cancel = context.WithCancel(ctx)
		ctx = context.WithValue(ctx, "k", "v")
	case "timeout":
		ctx, cancel = context.WithTimeout(ctx, time.Second)
	}
	if c.Ctx == "before" || c.Ctx == "farbefore" {
		cancel()
	}
	live := c.Ctx == "bg" || c.Ctx == "live"
	size := c.Size
	var opts []xmapreduce.Option
	if size == 0 {
		size = 16
	} else {
		opts = append(opts, xmapreduce.WithWorkerSize(size+1), xmapreduce.WithWorkerSize(size))
	}
	write := func(w xbarrier.Writer, i, j int) bool {
		var v any = fmt.Sprintf("%d.%d", i, j)
		if c.Items[i] == 'n' {
			v = nil
		}
		ok := func() bool {
			defer func() {
				if r := recover(); r != nil {
					x.Fail("a write panicked: %v", r)
				}
			}()
			return w.Write(v)
		}()
		if !ok && live {
			x.Fail("a write failed although the context is live")
		}
		if ok {
			x.Emit("wrote %v", v)
		} else {
			x.Emit("failed %v", v)
			if ctx.Err() == nil {
				x.Fail("a write failed although the context had not ended")
			}
		}
		return ok
	}
	mapFunc := func(item any, w xbarrier.Writer) {
		i, ok := item.(int)
		if item == nil {
			i, ok = strings.IndexByte(c.Items, 'e'), true
		}
		if !ok || i < 0 || i >= len(c.Items) {
			x.Fail("the map function got %v", item)
		}
		if n := x.Enter("map"); n > size && live {
			x.Fail("%d map calls run at a time with worker size %d", n, size)
		}
		if x.Reg(i) != 0 {
			x.Fail("the map function was called twice for element %d", i)
		}
		if c.Ctx == "before" || c.Ctx == "farbefore" {
			x.Fail("a map call started although the context had ended before the call")
		}
		x.SetReg(i, called)
		switch k := c.Items[i]; k {
		case '0', '1', '2', '3':
			for j := 0; j < int(k-'0'); j++ {
				write(w, i, j)
			}
		case 's':
			x.Step()
			write(w, i, 0)
		case 'c':
			<-ctx.Done()
			if write(w, i, 0) && c.Ctx != "own" {
				x.Fail("a write succeeded after the context had ended")
			}
		case 'f':
			for j := 0; j < size+2 && write(w, i, j); j++ {
			}
		case 'l':
			done := make(chan struct{})
			x.Go("writer", func() { write(w, i, 0); close(done) })
			<-done
		case 'n', 'e':
			write(w, i, 0)
		}
		x.SetReg(i, called|ended)
		x.Leave("map")
	}
	generate := func(source chan<- any) {
		for i := range c.Items {
			if c.Items[i] == 'e' {
				source <- nil
			} else {
				source <- i
			}
		}
		if c.Hold {
			<-make(chan struct{})
		}
	}
	if c.Ctx == "cancel" || c.Ctx == "parent" || c.Ctx == "own" || c.Ctx == "far" {
		x.Fault("canceller", func() { cancel() })
	}
	var out <-chan any
	got := []string{}
	closed := false
	take := func(v any) { got = append(got, fmt.Sprint(v)) }
	consumer := func() {
		switch c.Use {
		case "range":
			out = xmapreduce.Map(ctx, generate, mapFunc, opts...)
			for v := range out {
				take(v)
			}
			closed = true
		case "stream":
			xmapreduce.MapStream(ctx, generate, mapFunc, opts...).Foreach(take)
			closed = true
		case "count":
			n := xmapreduce.MapStream(ctx, generate, mapFunc, opts...).Count()
			for i := 0; i < n; i++ {
				got = append(got, "?")
			}
			closed = true
		case "never":
			out = xmapreduce.Map(ctx, generate, mapFunc, opts...)
		default:
			out = xmapreduce.Map(ctx, generate, mapFunc, opts...)
			for i := 0; i < int(c.Use[0]-'0'); i++ {
				v, ok := <-out
				if !ok {
					closed = true
					break
				}
				take(v)
			}
		}
		if closed && live {
			for i := range c.Items {
				if x.Reg(i)&ended == 0 {
					x.Fail("the output was closed before the map call of element %d had ended", i)
				}
			}
		}
	}
	x.Go("consumer", consumer)
	x.Quiesce()
	if !closed && out != nil {
		// everybody is still: the output must be closed although it was not read to its end
		for !closed {
			select {
			case v, ok := <-out:
				if ok {
					take(v)
				} else {
					closed = true
				}
			default:
				x.Fail("the context has ended, the map calls are over or blocked, and the output is not closed")
			}
		}
	}
	x.AtEnd(func(e *vrt.End) {
		var wrote, failed []string
		for _, m := range e.Emits() {
			if strings.HasPrefix(m, "wrote ") {
				wrote = append(wrote, m[6:])
			} else if strings.HasPrefix(m, "failed ") {
				failed = append(failed, m[7:])
			}
		}
		if !closed {
			e.Fail("the output was not closed: %s", strings.Join(e.Blocked(), "; "))
		}
		sort.Strings(wrote)
		sort.Strings(got)
		if c.Use == "count" {
			if len(got) != len(wrote) {
				e.Fail("%d values delivered, written: %v", len(got), wrote)
			}
		} else if a, b := strings.Join(got, " "), strings.Join(wrote, " "); a != b {
			e.Fail("delivered: %s; written: %s; writes that failed: %v", a, b, failed)
		}
		for i := range c.Items {
			s := x.Reg(i)
			if live && s&called == 0 {
				e.Fail("the map function was not called for element %d", i)
			}
			if s&called != 0 && s&ended == 0 {
				e.Fail("the map call of element %d did not end: %s", i, strings.Join(e.Blocked(), "; "))
			}
		}
		if live {
			e.NoBlocked()
		}
	})
}

// Scenario makes a scenario of a program.
func Scenario(c Conf, bounds ...int) *vrt.Scenario {
	return &vrt.Scenario{Name: c.String(), Bounds: bounds, Body: func(x *vrt.X) { Run(x, c) }}
}
