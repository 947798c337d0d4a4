// P16: Worker bounds concurrency and accounts for every run.
package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/chenquan/go-pkg/xworker"
	"github.com/chenquan/go-pkg/zverif/h/lib/ctxs"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P16", scenarios) }

// A run is a letter:
//
//	a  takes a step and ends, its context never ends
//	z  ends at once
//	b  its context has ended before Run is called
//	c  takes a step; another thread cancels its context
//	d  waits for its context to end; another thread cancels it
//	h  another thread cancels its context; it goes on until the canceller is done
//	f  like d; its context has a deadline that never comes
//	F  like b; its context has a deadline that never comes
//	o  like d; its context is of a type of its own
//	t  takes a step; its context has a deadline
//	w  waits for its context's deadline
//	s  cancels its own context, then takes a step
//	q  its context is cancelled while Run waits for a slot (only after holders)
//	H  holds its slot until the q runs were cancelled
type world struct {
	x       *vrt.X
	w       *xworker.Worker
	release chan struct{}
	n       int
	kinds   []byte
}

// run makes one call of Run; it returns what may be called to cancel (nil if nothing is to be cancelled).
func (w *world) run(kind byte) (func(), func()) {
	var cancel func()
	x := w.x
	id := len(w.kinds)
	w.kinds = append(w.kinds, kind)
	var ctx context.Context = context.Background()
	done := make(chan struct{})
	switch kind {
	case 'o':
		var cf context.CancelFunc
		ctx, cf = ctxs.Own(fmt.Sprint(id))
		cancel = func() {
			w.on(cancelled, id)
			cf()
			close(done)
		}
	case 'b', 'c', 'd', 'h', 's', 'q', 'f', 'F':
		var cf context.CancelFunc
		ctx, cf = context.WithCancel(ctx)
		cancel = func() {
			w.on(cancelled, id)
			cf()
			close(done)
		}
		if kind == 'f' || kind == 'F' {
			ctx = ctxs.Far(ctx)
		}
	case 't', 'w':
		ctx, _ = context.WithTimeout(ctx, time.Second)
	}
	if kind == 'b' || kind == 'F' {
		cancel()
		cancel = nil
	}
	fn := func() {
		w.on(started, id)
		switch kind {
		case 'a', 'c', 't':
			x.Step()
		case 'd', 'w', 'f', 'o':
			<-ctx.Done()
			x.Step()
		case 'h':
			<-done
			x.Step()
		case 's':
			cancel()
			x.Step()
		case 'H':
			<-w.release
		}
		w.on(ended, id)
	}
	c := cancel
	if kind == 's' {
		c = nil
	}
	return func() {
		x.Note("run %d%c: Run is called", id, kind)
		w.w.Run(ctx, fn, func() {
			w.on(deferred, id)
			if kind == 'c' || kind == 'a' {
				x.Step()
			}
		})
		w.on(accepted, id)
	}, c
}

const (
	started = 1 << iota
	ended
	cancelled
	deferred
	accepted
)

// on records that something happened to run id and checks the state of all runs.
func (w *world) on(what int, id int) {
	x := w.x
	k := w.kinds[id]
	s := x.Reg(id)
	timed := k == 't' || k == 'w' // its context may have ended at any time
	switch what {
	case started:
		x.Note("run %d%c: function called", id, k)
		if s&started != 0 {
			x.Fail("the function of run %d%c was called twice", id, k)
		}
		if k == 'b' || k == 'q' || k == 'F' {
			x.Fail("the function of run %d%c was called although its context had ended", id, k)
		}
		if s&deferred != 0 && s&cancelled == 0 && !timed {
			x.Fail("the function of run %d%c was called after its deferred function", id, k)
		}
	case ended:
		x.Note("run %d%c: function ends", id, k)
	case cancelled:
		x.Note("run %d%c: about to be cancelled", id, k)
	case deferred:
		x.Note("run %d%c: deferred function called", id, k)
		if s&deferred != 0 {
			x.Fail("the deferred function of run %d%c was called twice", id, k)
		}
		if s&(ended|cancelled) == 0 && !timed {
			x.Fail("the deferred function of run %d%c was called before its function ended", id, k)
		}
	case accepted:
		x.Note("run %d%c: Run returned", id, k)
	}
	x.SetReg(id, s|what)
	live, open := 0, 0
	for i, k := range w.kinds {
		s := x.Reg(i)
		if s&started != 0 && s&(ended|cancelled) == 0 && k != 't' && k != 'w' {
			live++
		}
		if s&accepted != 0 && s&deferred == 0 {
			open++
		}
	}
	if live > w.n {
		x.Fail("%d functions run at a time in a Worker of size %d", live, w.n)
	}
	if open > w.n {
		x.Fail("%d runs are accepted and have not ended in a Worker of size %d", open, w.n)
	}
}

// check looks at the state of all runs at the end.
func (w *world) check(e *vrt.End) {
	for i, k := range w.kinds {
		s := w.x.Reg(i)
		if s&accepted == 0 {
			e.Fail("Run %d%c did not return", i, k)
		}
		if s&deferred == 0 {
			e.Fail("the deferred function of run %d%c was not called", i, k)
		}
		if (k == 'a' || k == 'z' || k == 'H') && s&(started|ended) != started|ended {
			e.Fail("the function of run %d%c was not called", i, k)
		}
	}
}

// scen: every word is a caller making runs one after the other.
func scen(n int, bounds []int, callers ...string) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("size %d callers %s", n, short(strings.Join(callers, " | "))), Bounds: bounds, Body: func(x *vrt.X) {
		w := &world{x: x, w: xworker.NewWorker(n), release: make(chan struct{}), n: n}
		// all runs are known before anything starts
		var start []func()
		for i, c := range callers {
			calls := make([]func(), 0, len(c))
			for j := range c {
				call, cancel := w.run(c[j])
				calls = append(calls, call)
				if cancel != nil {
					start = append(start, func() { x.Fault("canceller", cancel) })
				}
			}
			name := fmt.Sprint("caller", i)
			start = append(start, func() {
				x.Go(name, func() {
					for _, f := range calls {
						f()
					}
				})
			})
		}
		for _, f := range start {
			f()
		}
		end(x, w, n)
	}}
}

// short shortens a long name.
func short(s string) string {
	if len(s) > 100 {
		return fmt.Sprintf("%s... (%d)", s[:20], len(s))
	}
	return s
}

// end waits for quiet, checks that n functions can run together, and leaves nothing behind.
func end(x *vrt.X, w *world, n int) {
	x.Quiesce()
	meet := make(chan struct{})
	for i := 0; i < n; i++ {
		i := i
		w.w.Run(context.Background(), func() {
			// each waits for all the others
			for j := 0; j < n-1; j++ {
				if i == 0 {
					meet <- struct{}{}
				}
			}
			if i > 0 {
				<-meet
			}
			x.Enter("again")
		}, func() {})
	}
	x.Quiesce()
	if k := x.Enter("again") - 1; k != n {
		x.Fail("afterwards only %d of %d functions could run together", k, n)
	}
	x.AtEnd(func(e *vrt.End) {
		w.check(e)
		e.NoBlocked()
	})
}

// waiting: holders occupy every slot; runs wait in Run while their contexts are cancelled.
func waiting(n, waiters int, others string) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("size %d, %d cancelled while waiting, then %s", n, waiters, others), Bounds: []int{1, 2}, Body: func(x *vrt.X) {
		w := &world{x: x, w: xworker.NewWorker(n), release: make(chan struct{}), n: n}
		var first, start []func()
		for i := 0; i < n; i++ {
			call, _ := w.run('H')
			first = append(first, call)
		}
		var cancels []func()
		for i := 0; i < waiters; i++ {
			call, cancel := w.run('q')
			cancels = append(cancels, cancel)
			start = append(start, func() { x.Go("caller", call) })
		}
		for i := range others {
			call, cancel := w.run(others[i])
			if cancel != nil {
				start = append(start, func() { x.Fault("canceller", cancel) })
			}
			start = append(start, func() { x.Go("caller", call) })
		}
		for _, f := range append(first, start...) {
			f()
		}
		x.Fault("canceller", func() {
			for _, c := range cancels {
				c()
			}
			close(w.release)
		})
		end(x, w, n)
	}}
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	kinds := "azbcdhtws"
	for n := 1; n <= 2; n++ {
		b1, b2 := []int{1, 2}, []int{1}
		if deep {
			b1, b2 = []int{1, 2, 3}, []int{1, 2}
		}
		for _, k := range "fFo" {
			r = append(r, scen(n, []int{-1}, string(k)))
			for _, l := range "abdfFo" {
				r = append(r, scen(n, b1, string(k)+string(l)))
				if l < 'f' && l != 'F' {
					r = append(r, scen(n, b1, string(l)+string(k)))
				}
				if l >= k || l < 'f' && l != 'F' {
					r = append(r, scen(n, b1, string(k), string(l)))
				}
			}
			r = append(r, scen(n, b2, string(k)+"a"+string(k)), scen(n, b2, "a"+string(k)+"a"))
		}
		for i := range kinds {
			r = append(r, scen(n, []int{-1}, kinds[i:i+1]))
			for j := range kinds {
				r = append(r, scen(n, b1, kinds[i:i+1]+kinds[j:j+1]))
				if j >= i {
					r = append(r, scen(n, b1, kinds[i:i+1], kinds[j:j+1]))
				}
				for k := range kinds {
					w := kinds[i:i+1] + kinds[j:j+1] + kinds[k:k+1]
					if n == 1 && strings.ContainsAny(w, "ac") || deep || n == 2 && strings.Count(w, "a") > 1 {
						r = append(r, scen(n, b2, w))
					}
				}
			}
		}
		r = append(r, scen(n, b2, "a", "a", "a"), scen(n, b2, "aa", "aa"), scen(n, b2, "ac", "ha"), scen(n, []int{1}, "aaaa"), scen(n, []int{1}, "ahab"))
		for _, o := range []string{"", "a", "c", "b"} {
			r = append(r, waiting(n, 1, o))
			if deep || n == 1 {
				r = append(r, waiting(n, 2, o))
			}
		}
		if deep {
			r = append(r, scen(n, []int{1}, "aaaaa"), scen(n, []int{1}, "a", "a", "a", "a"), scen(n, []int{1}, "ch", "ha", "a"))
		}
	}
	r = append(r, scen(3, []int{1}, "aaaa"), scen(3, []int{1}, "haaa"))
	// large workers and many runs, under a delay bound
	far := func(s *vrt.Scenario, d int) {
		if deep && len(s.Name) < 70 {
			d++
		}
		s.Name += " (delays)"
		s.Delay, s.Bounds, s.RaceBound = true, []int{0, d}, -1
		r = append(r, s)
	}
	rep := strings.Repeat
	for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 32, 33} {
		far(scen(n, nil, rep("a", 2*n+3)), 1)
		far(scen(n, nil, rep("acbs", min(n, 6))+rep("a", n)), 1)
		far(scen(n, nil, rep("ad", 6), rep("cb", 6), rep("s", 6)), 1)
		far(waiting(n, min(n, 8), "acb"), 1)
	}
	for _, n := range []int{1, 2, 3, 5} {
		for _, k := range "azbcdsw" {
			far(scen(n, nil, rep(string(k), 40)+rep("a", n+1)), 0)
		}
		far(scen(n, nil, rep("abcdsz", 12)), 0)
	}
	// hundreds of runs and slots
	for _, n := range []int{1, 2, 16, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 513} {
		for _, k := range "azcds" {
			far(scen(n, nil, rep(string(k), n+40)), 0)
		}
		far(scen(n, nil, rep("abcdsz", n/4+20)), 0)
		far(scen(n, nil, rep("a", n), rep("c", 40), rep("s", 40)), 0)
		if n < 300 {
			far(waiting(n, n+3, "acb"), 0)
		}
	}
	for _, n := range []int{1000, 1025, 2049} {
		far(scen(n, nil, rep("a", n+5)), 0)
		far(scen(n, nil, rep("c", n+5)), 0)
	}
	far(scen(1, nil, rep("a", 1100)), 0)
	far(scen(2, nil, rep("azsbcd", 700)), 0)
	far(scen(3, nil, rep("az", 1100)), 0)
	far(scen(2, nil, rep("bsad", 600)), 0)
	if deep {
		r = append(r, scen(3, []int{1, 2}, "hhaaa"), scen(3, []int{1, 2}, "aaaaa"))
	}
	return r
}
