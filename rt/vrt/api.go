package vrt

import (
	"fmt"
	"sort"
	"strings"
	"unsafe"
)

// X is what a scenario body gets: recording of operations and observations, and final checks.
type X struct {
	ops     []*OpRec
	events  []string
	evObj   Obj
	evH     uint64
	emits   []string
	emitSum uint64
	emitObj Obj
	gauges  []*gauge
	regs    []int
	regSum  uint64
	regObj  Obj
	clock   int
	doneSum uint64
	checks  []func(e *End)
	joinN   int
	outcome string
}

// OpRec is one recorded operation of a history.
type OpRec struct {
	Thread     int
	Name       string
	Args       []any
	Ret        any
	Begin, End int // positions in the total order of begins and ends; End 0: still running
	id         uint64
	begun      bool
}

func (o *OpRec) String() string {
	s := fmt.Sprintf("T%d %s%v", o.Thread, o.Name, o.Args)
	if o.End > 0 {
		s += fmt.Sprintf("=%v", o.Ret)
	} else {
		s += "=?"
	}
	return fmt.Sprintf("%s[%d,%d]", s, o.Begin, o.End)
}

func (x *X) beginOp(t *Thread, b *OpRec) {
	x.clock++
	b.Begin = x.clock
	b.begun = true
	t.chain = mix(t.chain, x.doneSum)
	t.setContrib()
}

// Call records fn as one operation. Its interval starts at its first visible step and ends
// right after its last one.
//
//go:noinline
func (x *X) Call(name string, fn func() any, args ...any) any {
	t := enter()
	t.opCount++
	b := &OpRec{Thread: t.id, Name: name, Args: args, id: mix(t.hid, t.opCount)}
	x.ops = append(x.ops, b)
	t.opBegin = b
	if eng.tracing {
		eng.note("T%d[%s] calls %s%v", t.id, t.name, name, args)
	}
	r := fn()
	t = enter()
	if !b.begun {
		t.opBegin = nil
		x.beginOp(t, b)
	}
	x.clock++
	b.End = x.clock
	b.Ret = r
	x.doneSum += b.id
	if eng.tracing {
		eng.note("T%d[%s] %s%v returns %v", t.id, t.name, name, args, r)
	}
	return r
}

// Go starts a named harness thread.
//
//go:noinline
func (x *X) Go(name string, f func()) {
	t := spawn(name, f)
	t.harness = true
}

// Fault starts a harness thread that stands for the environment: under a delay bound it runs last by
// default and at any point for one delay.
//
//go:noinline
func (x *X) Fault(name string, f func()) {
	t := spawn(name, f)
	t.harness = true
	t.env = true
}

// Daemon starts a harness thread that may stay blocked at the end.
//
//go:noinline
func (x *X) Daemon(name string, f func()) {
	t := spawn(name, f)
	t.harness = true
	t.daemon = true
}

type joinOp struct{ me *Thread }

func (j joinOp) ready(*Thread) bool {
	for _, u := range eng.act {
		if u != j.me && u.harness && !u.daemon && u.status != stDone {
			return false
		}
	}
	return true
}
func (j joinOp) what() string { return "join" }

// Wait waits until every thread started with Go has ended.
//
//go:noinline
func (x *X) Wait() {
	t := enter()
	t.at("join", joinOp{t})
	h := uint64(0)
	for _, u := range eng.threads {
		if u != t && u.harness && !u.daemon {
			h += mix(u.hid, u.chain)
		}
	}
	t.step(0xe1, h, false)
	raceAcq(unsafe.Pointer(eng.race))
}

type quietOp struct{ me *Thread }

func (q quietOp) ready(*Thread) bool {
	if len(eng.timers) > 0 {
		return false
	}
	for _, u := range eng.act {
		if u == q.me || u.status == stDone {
			continue
		}
		if u.status == stReady {
			return false
		}
		if _, ok := u.pop.(quietOp); ok && u.pkind == "quiesce" {
			continue
		}
		if u.canRun() {
			return false
		}
	}
	return true
}
func (q quietOp) what() string { return "quiesce" }

// Quiesce waits until no other thread can make a step (they have all ended or are blocked).
//
//go:noinline
func (x *X) Quiesce() {
	t := enter()
	t.at("quiesce", quietOp{t})
	h := uint64(0)
	for _, u := range eng.threads {
		if u != t {
			h += mix(u.hid, u.chain)
		}
	}
	t.step(0xe2, h, false)
	raceAcq(unsafe.Pointer(eng.race))
	raceAcq(unsafe.Pointer(eng.raceQ))
}

// Alive is the number of threads other than the caller that have not ended (call after Quiesce).
//
//go:noinline
func (x *X) Alive() int {
	t := enter()
	n := 0
	for _, u := range eng.act {
		if u != t && u.status != stDone {
			n++
		}
	}
	return n
}

// Event appends to the ordered log of the execution.
//
//go:noinline
func (x *X) Event(format string, a ...any) {
	t := enter()
	s := fmt.Sprintf(format, a...)
	x.events = append(x.events, s)
	x.evObj.fresh(t)
	x.evObj.id = 0xeeee
	x.evH = mix(x.evH, hashStr(s))
	x.evObj.set(x.evH)
	if eng.tracing {
		eng.note("T%d[%s] event: %s", t.id, t.name, s)
	}
}

// Events is the log so far.
//
//go:noinline
func (x *X) Events() []string { return x.events }

// Emit records an observation without order.
//
//go:noinline
func (x *X) Emit(format string, a ...any) {
	t := enter()
	s := fmt.Sprintf(format, a...)
	x.emits = append(x.emits, s)
	x.emitSum += hashStr(s)
	x.emitObj.fresh(t)
	x.emitObj.id = 0xeeef
	x.emitObj.set(x.emitSum)
	if eng.tracing {
		eng.note("T%d[%s] emits: %s", t.id, t.name, s)
	}
}

// Reg reads a register of the harness's monitor. Registers are for checks only: a thread must not
// act on one other than by failing or by setting registers. There is no scheduling point between
// consecutive accesses.
//
//go:noinline
func (x *X) Reg(i int) int {
	if i < len(x.regs) {
		return x.regs[i]
	}
	return 0
}

// SetReg sets a register.
//
//go:noinline
func (x *X) SetReg(i, v int) {
	t := enter()
	for len(x.regs) <= i {
		x.regs = append(x.regs, 0)
	}
	if x.regs[i] != 0 {
		x.regSum -= mix(uint64(i)+0x5e6, uint64(x.regs[i]))
	}
	x.regs[i] = v
	if v != 0 {
		x.regSum += mix(uint64(i)+0x5e6, uint64(v))
	}
	x.regObj.fresh(t)
	x.regObj.id = 0xeef1
	x.regObj.set(x.regSum)
}

// Note adds a line to the trace.
//
//go:noinline
func (x *X) Note(format string, a ...any) {
	if eng.tracing {
		t := enter()
		eng.note("T%d[%s] %s", t.id, t.name, fmt.Sprintf(format, a...))
	}
}

type gauge struct {
	name     string
	cur, max int
	total    int
	o        Obj
}

func (x *X) gauge(t *Thread, name string) *gauge {
	for _, g := range x.gauges {
		if g.name == name {
			return g
		}
	}
	g := &gauge{name: name}
	g.o.fresh(t)
	g.o.id = mix(hashStr(name), 0x6a)
	x.gauges = append(x.gauges, g)
	return g
}

// Enter counts the caller into a named region as early as possible.
//
//go:noinline
func (x *X) Enter(name string) int {
	t := enter()
	g := x.gauge(t, name)
	g.cur++
	g.total++
	if g.cur > g.max {
		g.max = g.cur
	}
	g.o.set(mix(mix(uint64(g.cur), uint64(g.max)), uint64(g.total)))
	if eng.tracing {
		eng.note("T%d[%s] enters %s (now %d)", t.id, t.name, name, g.cur)
	}
	return g.cur
}

// Leave counts the caller out of a region; it may be delayed by the scheduler.
//
//go:noinline
func (x *X) Leave(name string) {
	t := enter()
	t.at("leave "+name, nil)
	g := x.gauge(t, name)
	g.cur--
	g.o.set(mix(mix(uint64(g.cur), uint64(g.max)), uint64(g.total)))
	t.chain = mix(t.chain, 0x6b)
	t.setContrib()
	if eng.tracing {
		eng.note("T%d[%s] leaves %s", t.id, t.name, name)
	}
}

// Step is a visible step that touches nothing: other threads may run before it.
//
//go:noinline
func (x *X) Step() {
	t := enter()
	t.at("step", nil)
	t.step(0xe3, 0, true)
}

// Choose enumerates a data choice.
//
//go:noinline
func (x *X) Choose(n int) int { return Choose(n) }

// Fail reports a violation at once.
//
//go:noinline
func (x *X) Fail(format string, a ...any) {
	t := enter()
	eng.failNow(fmt.Sprintf(format, a...), t)
}

// AtEnd registers a check that runs when no thread can make a step any more.
//
//go:noinline
func (x *X) AtEnd(f func(e *End)) { x.checks = append(x.checks, f) }

// Outcome sets the observation that distinguishes executions (besides history and events).
//
//go:noinline
func (x *X) Outcome(format string, a ...any) { x.outcome += fmt.Sprintf(format, a...) + ";" }

// End is the state at the end of an execution.
type End struct {
	X *X
}

// Fail reports a violation.
func (e *End) Fail(format string, a ...any) {
	if eng.failure == "" {
		eng.failure = fmt.Sprintf(format, a...)
	}
}

// Failed reports whether a check already failed.
func (e *End) Failed() bool { return eng.failure != "" }

// Blocked describes the threads (other than daemons) that have not ended.
func (e *End) Blocked() []string {
	var r []string
	for _, t := range eng.threads {
		if t.status != stDone && !t.daemon {
			r = append(r, e.describe(t))
		}
	}
	return r
}

func (e *End) describe(t *Thread) string {
	w := t.pkind
	if t.pop != nil {
		w = t.pop.what()
	}
	if t.yielding {
		w += " (polling)"
	}
	return fmt.Sprintf("%s blocked in %s", t.name, w)
}

// BlockedOutside describes the blocked threads that the harness did not start itself.
func (e *End) BlockedOutside() []string {
	var r []string
	for _, t := range eng.threads {
		if t.status != stDone && !t.daemon && !t.harness {
			r = append(r, e.describe(t))
		}
	}
	return r
}

// NoBlocked fails if any thread has not ended.
func (e *End) NoBlocked() {
	if b := e.Blocked(); len(b) > 0 {
		if n := len(b); n > 12 {
			b = append(b[:12:12], fmt.Sprintf("and %d more", n-12))
		}
		e.Fail("stuck: %s", strings.Join(b, "; "))
	}
}

// Ops is the recorded history in order of begins.
func (e *End) Ops() []*OpRec {
	var r []*OpRec
	for _, o := range e.X.ops {
		if o.begun {
			r = append(r, o)
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].Begin < r[j].Begin })
	return r
}

func (e *End) Events() []string { return e.X.events }

// Emits is the sorted multiset of unordered observations.
func (e *End) Emits() []string {
	r := append([]string(nil), e.X.emits...)
	sort.Strings(r)
	return r
}

// Max is the largest number of threads ever inside a region, Total the number of entries.
func (e *End) Max(name string) int {
	for _, g := range e.X.gauges {
		if g.name == name {
			return g.max
		}
	}
	return 0
}

func (e *End) Total(name string) int {
	for _, g := range e.X.gauges {
		if g.name == name {
			return g.total
		}
	}
	return 0
}

func (x *X) finish() {
	defer func() {
		if r := recover(); r != nil && eng.failure == "" {
			eng.failure = fmt.Sprintf("panic in final check: %v", r)
		}
	}()
	for _, t := range eng.threads {
		if t.opBegin != nil && !t.opBegin.begun {
			// invoked but no visible step taken: it counts as begun now
			x.clock++
			t.opBegin.Begin = x.clock
			t.opBegin.begun = true
			t.opBegin = nil
		}
	}
	e := &End{X: x}
	for _, f := range x.checks {
		f(e)
	}
	if m := eng.threads[0]; m.status != stDone && eng.failure == "" {
		eng.failure = fmt.Sprintf("the scenario's main thread never gets past %q: %s", m.pkind, strings.Join(e.Blocked(), "; "))
	}
}

func (x *X) obsHash() uint64 {
	h := hashStr(x.outcome)
	for _, o := range x.ops {
		h = mix(h, hashStr(o.String()))
	}
	for _, s := range x.events {
		h = mix(h, hashStr(s))
	}
	h = mix(h, x.emitSum)
	h = mix(h, x.regSum)
	for _, g := range x.gauges {
		h = mix(h, mix(hashStr(g.name), uint64(g.max)))
	}
	return h
}

func (x *X) describe() string {
	var b strings.Builder
	for _, o := range x.ops {
		b.WriteString(o.String() + " ")
	}
	if len(x.events) > 0 {
		b.WriteString("events:" + strings.Join(x.events, ",") + " ")
	}
	if len(x.emits) > 0 {
		r := append([]string(nil), x.emits...)
		sort.Strings(r)
		b.WriteString("emits:" + strings.Join(r, ",") + " ")
	}
	if len(x.regs) > 0 {
		fmt.Fprintf(&b, "monitor:%v ", x.regs)
	}
	for _, g := range x.gauges {
		fmt.Fprintf(&b, "max(%s)=%d ", g.name, g.max)
	}
	if x.outcome != "" {
		b.WriteString("outcome:" + x.outcome)
	}
	s := b.String()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}
