package vrt

import (
	"context"
	"math"
	"reflect"
	"time"
	"unsafe"
)

// ---- virtual time ----
// Time stands still while threads compute; the clock may fire the earliest timer at any point.

type vtimer struct {
	o      Obj
	when   int64
	seq    uint64
	period int64
	left   int
	f      func()
	h      uint64
	rbuf   *[1]uint64
}

var epochTime = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// after is the time d from now; it does not overflow.
func (e *Engine) after(d time.Duration) int64 {
	if t := e.now + int64(d); d <= 0 || t > e.now {
		return t
	}
	return math.MaxInt64
}

func (e *Engine) addTimer(t *Thread, v *vtimer, d time.Duration) {
	if d < 0 {
		d = 0
	}
	v.o.fresh(t)
	v.when = e.after(d)
	e.tseq++
	v.seq = e.tseq
	v.h = t.chain
	v.rbuf = new([1]uint64)
	raceRel(unsafe.Pointer(v.rbuf))
	e.timers = append(e.timers, v)
	v.o.set(mix(v.h, uint64(v.when)))
	e.W++
}

func (e *Engine) dropTimer(v *vtimer) bool {
	for i, x := range e.timers {
		if x == v {
			var rest []*vtimer
			for j, y := range e.timers {
				if j != i {
					rest = append(rest, y)
				}
			}
			e.timers = rest
			v.o.set(1)
			return true
		}
	}
	return false
}

func (e *Engine) fireTimer() {
	var b *vtimer
	for _, v := range e.timers {
		if b == nil || v.when < b.when || (v.when == b.when && v.seq < b.seq) {
			b = v
		}
	}
	e.dropTimer(b)
	if b.when > e.now {
		e.now = b.when
	}
	prev := e.cur
	e.cur = e.clock
	e.clock.step(b.o.id, b.h, true)
	if e.tracing {
		e.tr(e.clock, "timer fires")
	}
	raceAcq(unsafe.Pointer(b.rbuf))
	if b.period > 0 && b.left > 0 {
		b.left--
		b.when += b.period
		e.tseq++
		b.seq = e.tseq
		e.timers = append(e.timers, b)
		b.o.set(mix(b.h, uint64(b.when)))
	}
	b.f()
	e.nowObj.fresh(e.clock)
	e.nowObj.id = 0x5a5a
	e.nowObj.set(uint64(e.now))
	e.cur = prev
}

type sleeper struct{ fired bool }

func (s *sleeper) ready(t *Thread) bool { return s.fired }
func (s *sleeper) what() string         { return "Sleep" }

//go:noinline
func Sleep(d time.Duration) {
	t := enter()
	if t.noYield {
		return
	}
	if d <= 0 {
		Gosched()
		return
	}
	s := &sleeper{}
	v := &vtimer{f: func() { s.fired = true }}
	eng.addTimer(t, v, d)
	t.chain = mix(t.chain, 0xb1)
	t.setContrib()
	t.at("Sleep", s)
	t.step(0xb2, uint64(eng.now), false)
}

//go:noinline
func Now() time.Time {
	t := enter()
	t.at("time.Now", nil)
	t.step(0xb3, uint64(eng.now), false)
	return epochTime.Add(time.Duration(eng.now))
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Timer replaces time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	vt *vtimer
}

func chanPtr(c chan time.Time) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// tick delivers the time on a channel of capacity one without blocking.
func tick(c chan time.Time) {
	v := getChan(chanPtr(c), cap(c))
	t := eng.cur
	if v.count < v.cap {
		t.put(v, epochTime.Add(time.Duration(eng.now)))
	}
}

//go:noinline
func NewTimer(d time.Duration) *Timer {
	t := enter()
	c := make(chan time.Time, 1)
	getChan(chanPtr(c), 1)
	tm := &Timer{C: c, c: c}
	tm.vt = &vtimer{f: func() { tick(c) }}
	eng.addTimer(t, tm.vt, d)
	return tm
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

//go:noinline
func AfterFunc(d time.Duration, f func()) *Timer {
	t := enter()
	tm := &Timer{f: f}
	tm.vt = &vtimer{f: func() { spawn("AfterFunc", f) }}
	eng.addTimer(t, tm.vt, d)
	return tm
}

//go:noinline
func (tm *Timer) Stop() bool {
	t := enter()
	t.at("Timer.Stop", nil)
	ok := eng.dropTimer(tm.vt)
	t.step(tm.vt.o.id, b64(ok), true)
	if tm.c != nil {
		v := getChan(chanPtr(tm.c), 1)
		if v.count > 0 {
			t.take(v)
		}
	}
	return ok
}

func b64(b bool) uint64 {
	if b {
		return 0xb8
	}
	return 0xb9
}

//go:noinline
func (tm *Timer) Reset(d time.Duration) bool {
	ok := tm.Stop()
	t := eng.cur
	f := tm.vt.f
	tm.vt = &vtimer{f: f}
	eng.addTimer(t, tm.vt, d)
	return ok
}

// Ticker replaces time.Ticker (it ticks a bounded number of times).
type Ticker struct {
	C  <-chan time.Time
	vt *vtimer
}

//go:noinline
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := enter()
	c := make(chan time.Time, 1)
	getChan(chanPtr(c), 1)
	tk := &Ticker{C: c}
	tk.vt = &vtimer{f: func() { tick(c) }, period: int64(d), left: 4}
	eng.addTimer(t, tk.vt, d)
	return tk
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

//go:noinline
func (tk *Ticker) Stop() {
	t := enter()
	t.at("Ticker.Stop", nil)
	eng.dropTimer(tk.vt)
	t.step(tk.vt.o.id, 0xba, true)
}

//go:noinline
func (tk *Ticker) Reset(d time.Duration) {
	tk.Stop()
	tk.vt.period = int64(d)
	eng.addTimer(eng.cur, tk.vt, d)
}

// ---- context ----
// A compact implementation of package context on virtual channels. A cancellation takes
// effect on a context and its descendants in one atomic step.

type vctx struct {
	parent   context.Context
	o        Obj
	done     chan struct{}
	err      error
	cause    error
	children []*vctx
	afters   []*afterFn
	deadline int64
	hasDl    bool
	timer    *vtimer
	up       *vctx
}

type afterFn struct {
	f   func()
	ran bool
}

func ctxChan(c chan struct{}) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

var ctxKey int

func (c *vctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return epochTime.Add(time.Duration(c.deadline)), true
	}
	return c.parent.Deadline()
}

func (c *vctx) Done() <-chan struct{} { return c.done }

//go:noinline
func (c *vctx) Err() error {
	t := enter()
	t.at("ctx.Err", nil)
	t.step(c.o.id, b64(c.err != nil), false)
	if c.err != nil {
		raceAcq(c.o.ra())
	}
	return c.err
}

func (c *vctx) Value(k any) any {
	if k == &ctxKey {
		return c
	}
	return c.parent.Value(k)
}

func (c *vctx) String() string { return "vctx" }

func (c *vctx) cancelLocked(t *Thread, err, cause error) {
	if c.err != nil {
		return
	}
	raceRel(c.o.ra())
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	c.o.set(mix(t.chain, 0xc1))
	t.doClose(getChan(ctxChan(c.done), 0))
	for _, k := range c.children {
		k.cancelLocked(t, err, cause)
	}
	c.children = nil
	for _, a := range c.afters {
		if !a.ran {
			a.ran = true
			spawn("context.AfterFunc", a.f)
		}
	}
	c.afters = nil
	if c.timer != nil {
		eng.dropTimer(c.timer)
		c.timer = nil
	}
	if c.up != nil {
		var rest []*vctx
		for _, k := range c.up.children {
			if k != c {
				rest = append(rest, k)
			}
		}
		c.up.children = rest
	}
}

func (c *vctx) cancel(err, cause error) {
	t := enter()
	t.at("cancel", nil)
	t.step(c.o.id, 0xc2, true)
	c.cancelLocked(t, err, cause)
}

//go:noinline
func newCtx(parent context.Context) *vctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	t := enter()
	c := &vctx{parent: parent, done: make(chan struct{})}
	c.o.fresh(t)
	getChan(ctxChan(c.done), 0)
	if p, ok := parent.Value(&ctxKey).(*vctx); ok && p != nil && p.Done() == parent.Done() {
		t.at("ctx attach", nil)
		t.step(p.o.id, b64(p.err != nil), true)
		if p.err != nil {
			raceAcq(p.o.ra())
			c.cancelLocked(t, p.err, p.cause)
		} else {
			p.children = append(p.children, c)
			p.o.set(mix(p.o.contrib, t.chain))
			c.up = p
		}
		return c
	}
	if d := parent.Done(); d != nil {
		if Select(true, R(d).Case()) == 0 {
			c.cancel(parent.Err(), nil)
			return c
		}
		spawn("context watcher", func() {
			r, me := R(d), R((<-chan struct{})(c.done))
			if Select(false, r.Case(), me.Case()) == 0 {
				c.cancel(parent.Err(), nil)
			}
		})
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(context.Canceled, cause) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return withDeadline(parent, eng.after(d), d, nil)
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return withDeadline(parent, eng.after(d), d, cause)
}

func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	d := at.Sub(epochTime.Add(time.Duration(eng.now)))
	return withDeadline(parent, eng.after(d), d, nil)
}

func WithDeadlineCause(parent context.Context, at time.Time, cause error) (context.Context, context.CancelFunc) {
	d := at.Sub(epochTime.Add(time.Duration(eng.now)))
	return withDeadline(parent, eng.after(d), d, cause)
}

//go:noinline
func withDeadline(parent context.Context, when int64, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := newCtx(parent)
	cancel := func() { c.cancel(context.Canceled, nil) }
	if pd, ok := parent.Deadline(); ok && pd.Before(epochTime.Add(time.Duration(when))) {
		return c, cancel
	}
	c.hasDl, c.deadline = true, when
	t := eng.cur
	if d <= 0 {
		c.cancelLocked(t, context.DeadlineExceeded, cause)
		return c, cancel
	}
	if c.err == nil {
		c.timer = &vtimer{f: func() {
			t := eng.cur
			t.step(c.o.id, 0xc3, true)
			c.cancelLocked(t, context.DeadlineExceeded, cause)
		}}
		eng.addTimer(t, c.timer, d)
	}
	return c, cancel
}

type valCtx struct {
	context.Context
	k, v any
}

func (c *valCtx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

func WithValue(parent context.Context, k, v any) context.Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if k == nil {
		panic("nil key")
	}
	if !reflect.TypeOf(k).Comparable() {
		panic("key is not comparable")
	}
	return &valCtx{parent, k, v}
}

type detached struct{ p context.Context }

func (detached) Deadline() (time.Time, bool) { return time.Time{}, false }
func (detached) Done() <-chan struct{}       { return nil }
func (detached) Err() error                  { return nil }
func (d detached) Value(k any) any {
	if k == &ctxKey {
		return nil
	}
	return d.p.Value(k)
}

func WithoutCancel(parent context.Context) context.Context { return detached{parent} }

// Cause replaces context.Cause.
func Cause(c context.Context) error {
	if v, ok := c.Value(&ctxKey).(*vctx); ok && v != nil {
		v.Err()
		return v.cause
	}
	return c.Err()
}

// CtxAfterFunc replaces context.AfterFunc.
//
//go:noinline
func CtxAfterFunc(ctx context.Context, f func()) (stop func() bool) {
	a := &afterFn{f: f}
	v, ok := ctx.Value(&ctxKey).(*vctx)
	if !ok || v == nil {
		return func() bool { r := !a.ran; a.ran = true; return r }
	}
	t := enter()
	t.at("context.AfterFunc", nil)
	t.step(v.o.id, 0xc4, true)
	if v.err != nil {
		a.ran = true
		spawn("context.AfterFunc", f)
	} else {
		v.afters = append(v.afters, a)
	}
	return func() bool {
		t := enter()
		t.at("context.AfterFunc stop", nil)
		t.step(v.o.id, b64(a.ran), true)
		r := !a.ran
		a.ran = true
		return r
	}
}

// ---- math/rand ----

// chooseN enumerates 0..n-1 when n is small and the ends and the middle otherwise.
func chooseN(n int) int {
	t := enter()
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if n <= 16 {
		return t.choose(n)
	}
	switch t.choose(3) {
	case 0:
		return 0
	case 1:
		return n - 1
	}
	return n / 2
}

func Intn(n int) int       { return chooseN(n) }
func Int31n(n int32) int32 { return int32(chooseN(int(n))) }
func Int63n(n int64) int64 { return int64(chooseN(int(n))) }
func RInt() int            { return chooseN(1 << 30) }
func RInt31() int32        { return int32(chooseN(1 << 30)) }
func RInt63() int64        { return int64(chooseN(1 << 62)) }
func RUint32() uint32      { return uint32(chooseN(1 << 31)) }
func RUint64() uint64      { return uint64(chooseN(1 << 62)) }
func RFloat64() float64    { return float64(chooseN(4)) / 4 }
func RFloat32() float32    { return float32(chooseN(4)) / 4 }
func RSeed(int64)          {}
func RPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	RShuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func RShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, chooseN(i+1))
	}
}
