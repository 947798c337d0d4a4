// Package vrt is the controlled runtime: it runs one virtual thread at a time,
// owns every scheduling and data choice of the program under check, and
// explores those choices depth first with a happens-before state cache.
//
// The package must stay free of runtime maps and copy(): in the race build it
// is compiled without race instrumentation, but the runtime's map and copy
// helpers report accesses by themselves.
package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

const (
	stReady   = uint8(iota) // has local work to do before its next visible operation
	stPending               // waits at a visible operation
	stDone
)

const maxThreads = 16384

// An op a thread waits at. ready reports whether the thread could execute it now.
type op interface {
	ready(t *Thread) bool
	what() string
}

// Thread is a virtual thread.
type Thread struct {
	id      int
	hid     uint64
	name    string
	site    string
	nspawn  uint64
	nobj    uint64
	resume  chan struct{}
	status  uint8
	chain   uint64
	contrib uint64
	fn      func()
	noYield bool
	daemon  bool
	harness bool
	env     bool // stands for the environment

	// pending operation
	pop    op
	pkind  string
	poll   bool
	ch     *vchan
	cases  []Case
	isSend bool
	sendV  any
	// result of a completed rendezvous or select
	opDone bool
	resV   any
	resOK  bool
	resIdx int

	lastW    uint64
	idle     int
	yielding bool
	ns       uint64  // steps so far
	yields   int     // Gosched calls so far
	yieldW   uint64  // W at the last Gosched
	snap     []ysnap // the threads that were enabled at the last Gosched
	gate     []ysnap // the threads this one must let go first (only while at a Gosched)

	opBegin  *OpRec
	opCount  uint64
	finished bool
	rbuf     *[1]uint64 // race address
}

type ysnap struct {
	u  *Thread
	ns uint64
}

type decision struct {
	n, c int
	fp   uint64
	sch  bool
	tids [24]uint8
}

// Engine runs and explores one scenario.
type Engine struct {
	threads  []*Thread
	act      []*Thread // those that had not ended when the list was last compacted, and newer ones
	ended    int       // of act
	cur      *Thread
	last     *Thread
	ctl      *Thread
	clock    *Thread
	done     chan struct{}
	ack      chan struct{}
	killing  bool
	over     bool
	running  bool
	epoch    uint32
	F        uint64
	W        uint64
	steps    int
	nsteps   int // steps of this execution executed beyond the replayed prefix
	path     []decision
	pos      int
	used     int  // preemptions used
	bound    int  // -1: unbounded
	delay    bool // the bound counts delays, not preemptions
	visited  table
	caching  bool
	strict   bool // replay only: past the path take choice 0
	horizon  int
	pruned   bool
	capped   bool
	cut      bool
	diverged string
	failure  string
	quiet    bool
	crashed  bool
	tracing  bool
	trace    []string
	progress uint64
	chans    ptrTable
	addrs    ptrTable
	now      int64
	nowObj   Obj
	timers   []*vtimer
	tseq     uint64
	x        *X
	race     *[1]uint64
	raceQ    *[1]uint64 // released by every thread that waits, acquired by Quiesce
	mapOrd   int
	idleMax  int
	unlockPt bool
	enum     *Enum
	optBuf   [maxThreads]*Thread
	scratch  []*Thread
	scan     uint64 // not 0 while pick asks which threads can run
	scans    uint64
	marked   uint64
}

var eng = newEngine()

func newEngine() *Engine {
	e := &Engine{done: make(chan struct{}, 1), ack: make(chan struct{}, 1), bound: -1, horizon: 20000, race: new([1]uint64), raceQ: new([1]uint64), mapOrd: 1}
	e.ctl = &Thread{id: -1, hid: 0x9e37, chain: 0x1234567, noYield: true, name: "controller", resume: make(chan struct{}, 1), rbuf: new([1]uint64)}
	e.clock = &Thread{id: -2, hid: 0x7f4a7c15, chain: 0x7654321, noYield: true, name: "clock", rbuf: new([1]uint64)}
	e.cur = e.ctl
	e.epoch = 1
	return e
}

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 32
	a *= 0xd6e8feb86659fd93
	a ^= a >> 29
	a *= 0xbf58476d1ce4e5b9
	a ^= a >> 32
	return a
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix(h, uint64(len(s)))
}

// Obj is the identity and hashed state of a shared object.
type Obj struct {
	epoch   uint32
	id      uint64
	contrib uint64
	rbuf    *[1]uint64
	seq     int
}

// fresh makes the object belong to the current execution; it reports whether
// the caller must reset its own state.
func (o *Obj) fresh(t *Thread) bool {
	if o.epoch == eng.epoch {
		return false
	}
	o.epoch = eng.epoch
	t.nobj++
	o.id = mix(mix(t.hid, t.chain), t.nobj) | 1
	o.contrib = 0
	o.rbuf = new([1]uint64)
	o.seq = 0
	return true
}

func (o *Obj) set(h uint64) {
	n := mix(o.id, h)
	eng.F += n - o.contrib
	o.contrib = n
}

func (o *Obj) ra() unsafe.Pointer { return unsafe.Pointer(o.rbuf) }

func (t *Thread) ra() unsafe.Pointer { return unsafe.Pointer(t.rbuf) }

func (t *Thread) setContrib() {
	n := mix(t.hid, t.chain)
	eng.F += n - t.contrib
	t.contrib = n
}

// step records the execution of a visible operation by t.
func (t *Thread) step(objID, in uint64, write bool) {
	e := eng
	if b := t.opBegin; b != nil {
		t.opBegin = nil
		e.x.beginOp(t, b)
	}
	t.chain = mix(mix(t.chain, objID), in)
	t.setContrib()
	t.ns++
	e.steps++
	e.progress++
	if e.pos >= len(e.path) {
		e.nsteps++
	}
	if write {
		e.W++
		t.idle = 0
	} else {
		t.idle++
	}
	t.lastW = e.W
}

// enter returns the running thread; while threads are being killed it ends the caller.
func enter() *Thread {
	if eng.killing {
		runtime.Goexit()
	}
	return eng.cur
}

// at makes the thread wait at a visible operation until it is scheduled to execute it.
func (t *Thread) at(kind string, o op) {
	if t.noYield {
		if o != nil && !o.ready(t) {
			panic("vrt: blocking operation " + kind + " outside a virtual thread")
		}
		return
	}
	t.pkind, t.pop = kind, o
	t.status = stPending
	t.opDone = false
	t.yielding = t.idle >= 30
	eng.schedule(t)
	if eng.tracing {
		eng.tr(t, kind)
	}
}

func (e *Engine) tr(t *Thread, s string) {
	if len(e.trace) < 4000 {
		e.trace = append(e.trace, fmt.Sprintf("%-3d T%d[%s] %s", len(e.trace), t.id, t.name, s))
	}
}

func (e *Engine) note(format string, a ...any) {
	if e.tracing {
		e.trace = append(e.trace, "        "+fmt.Sprintf(format, a...))
	}
}

func (t *Thread) canRun() bool {
	if t.status != stPending {
		return false
	}
	if !t.enabled() {
		return false
	}
	if t.yielding {
		for _, g := range t.gate {
			if g.u.ns == g.ns && g.u.enabled() {
				return false
			}
		}
	}
	return true
}

// enabled: t could take a step, fairness aside.
func (t *Thread) enabled() bool {
	if t.status != stPending || t.yielding && eng.W == t.lastW {
		return false
	}
	return t.pop == nil || t.pop.ready(t)
}

// yieldState hashes what the fairness rule remembers about t.
func (t *Thread) yieldState() uint64 {
	h := mix(t.hid, 0x9d)
	if eng.W == t.yieldW {
		h = mix(h, 1)
	}
	for _, g := range t.snap {
		if g.u.ns == g.ns {
			h += mix(g.u.hid, 2)
		}
	}
	for _, g := range t.gate {
		if g.u.ns == g.ns {
			h += mix(g.u.hid, 3)
		}
	}
	return h
}

// schedule hands control to the next thread and returns when t is to go on.
func (e *Engine) schedule(t *Thread) {
	n := e.pick()
	if n == t {
		return
	}
	raceRelM(unsafe.Pointer(e.raceQ))
	raceOff()
	if n == nil {
		e.over = true
		e.cur = e.ctl
		e.done <- struct{}{}
	} else {
		n.resume <- struct{}{}
	}
	if t.status == stDone {
		raceOn()
		return
	}
	<-t.resume
	raceOn()
	if e.killing {
		runtime.Goexit()
	}
}

// pick chooses the next thread to run, or nil if the execution is over.
func (e *Engine) pick() *Thread {
	if e.failure != "" || e.diverged != "" {
		return nil
	}
	if e.ended > 8 && 2*e.ended > len(e.act) {
		n := 0
		for _, t := range e.act {
			if t.status != stDone {
				e.act[n] = t
				n++
			}
		}
		e.act, e.ended = e.act[:n], 0
	}
	for {
		for _, t := range e.act {
			if t.status == stReady {
				e.cur = t
				return t
			}
		}
		if e.steps > e.horizon {
			e.capped = true
			return nil
		}
		// options: the thread that ran last first, then ascending ids, then the clock
		opts := e.optBuf[:0]
		lastOK := false
		lastID := -1
		var order uint64
		e.scans++
		e.scan = e.scans
		if e.last != nil && e.last != e.clock && e.last.canRun() {
			opts = append(opts, e.last)
			lastOK = true
		}
		var gate uint64
		for _, t := range e.act {
			if t.status == stPending && t.yielding && e.W != t.lastW {
				gate = mix(gate, t.hid)
			}
			if t.yields > 0 && t.status != stDone {
				gate = mix(gate, t.yieldState())
			}
			if t != e.last && t.canRun() {
				opts = append(opts, t)
			}
			if e.delay && t.status != stDone {
				order = mix(order, t.hid)
			}
		}
		e.scan = 0
		if e.delay {
			// round robin: the threads after the last one come first
			if e.last != nil {
				lastID = e.last.id
			}
			i := 0
			if lastOK {
				i = 1
			}
			rest := opts[i:]
			k := 0
			for k < len(rest) && rest[k].id < lastID {
				k++
			}
			rotate(rest, k)
		}
		if len(e.timers) > 0 {
			opts = append(opts, e.clock)
		}
		env := 0
		if e.delay {
			env = promote(opts)
		}
		n := len(opts)
		if n == 0 {
			// only threads that wait for a change of state by polling are left: let them
			// poll on for a while (the loop may be bounded), then call it a livelock
			var g *Thread
			for _, t := range e.act {
				if t.status == stPending && t.yielding && t.idle < e.idleMax && (t.pop == nil || t.pop.ready(t)) && (g == nil || t.idle < g.idle) {
					g = t
				}
			}
			if g == nil {
				e.quiet = true
				return nil
			}
			e.last = g
			g.status = stReady
			e.cur = g
			g.yielding = false
			return g
		}
		if e.delay {
			k := 1
			if e.used < e.bound {
				k += env + e.bound - e.used
			}
			if n > k {
				n = k
				e.cut = true
			}
		} else if e.bound >= 0 && lastOK && !e.last.yielding && e.used >= e.bound && n > 1 {
			n = 1
			e.cut = true
		}
		if e.pos >= len(e.path) && e.caching {
			fp := e.F
			if gate != 0 {
				fp = mix(fp, gate)
			}
			rem := uint8(255)
			if e.bound >= 0 {
				lh := uint64(0)
				if lastOK || e.delay && e.last != nil {
					lh = e.last.hid
				}
				fp = mix(fp, lh)
				if e.delay {
					fp = mix(fp, order)
				}
				rem = uint8(e.bound - e.used)
			}
			if e.visited.seen(fp, rem) {
				e.pruned = true
				return nil
			}
		}
		c := 0
		if n > 1 {
			c = e.decide(n, true)
			if c < 0 {
				return nil
			}
		}
		t := opts[c]
		if e.delay {
			if c <= env {
				c = min(c, 1)
			} else {
				c -= env
			}
			e.used += c
		} else if lastOK && c != 0 && !e.last.yielding {
			e.used++
		}
		e.last = t
		if t == e.clock {
			e.fireTimer()
			continue
		}
		t.status = stReady
		e.cur = t
		t.yielding = false
		return t
	}
}

// promote moves the threads of the environment and the clock to the places after the first option,
// where running each of them is one delay, and returns their number.
func promote(opts []*Thread) int {
	env := func(t *Thread) bool { return t.env || t == eng.clock }
	for i := range opts { // an ordinary thread first
		if i == 0 && opts[0] == eng.last && !env(opts[0]) {
			break
		}
		if !env(opts[i]) {
			t := opts[i]
			if i > 0 && opts[0] == eng.last && env(opts[0]) {
				break // the environment goes on
			}
			for j := i; j > 0; j-- {
				opts[j] = opts[j-1]
			}
			opts[0] = t
			break
		}
	}
	if len(eng.scratch) < len(opts) {
		eng.scratch = make([]*Thread, 2*len(opts))
	}
	rest := eng.scratch
	k, n := 0, 0
	for i := 1; i < len(opts); i++ {
		if t := opts[i]; env(t) {
			opts[k+1] = t
			k++
		} else {
			rest[n] = t
			n++
		}
	}
	for i := 0; i < n; i++ { // no copy(): the race detector would see it
		opts[k+1+i] = rest[i]
	}
	return k
}

// rotate moves the first k elements to the end.
func rotate(s []*Thread, k int) {
	if k == 0 || k == len(s) {
		return
	}
	// no copy(): the race detector would see it
	rev := func(l []*Thread) {
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	rev(s[:k])
	rev(s[k:])
	rev(s)
}

// decide takes the next decision among n alternatives (-1: divergence).
func (e *Engine) decide(n int, sch bool) int {
	if e.pos < len(e.path) {
		d := &e.path[e.pos]
		if d.n == -1 && d.c < n {
			d.n, d.sch = n, sch
		}
		if d.n != n || d.sch != sch || (d.fp != 0 && d.fp != e.F) {
			e.diverged = fmt.Sprintf("replay diverged at decision %d: recorded %d alternatives (sched=%v fp=%x), now %d (sched=%v fp=%x)", e.pos, d.n, d.sch, d.fp, n, sch, e.F)
			return -1
		}
		e.pos++
		return d.c
	}
	e.path = append(e.path, decision{n: n, c: 0, fp: e.F, sch: sch})
	e.pos++
	return 0
}

// Choose is a data choice among n alternatives.
func Choose(n int) int {
	t := enter()
	return t.pickOne(n)
}

// choose is a choice of the runtime; under a delay bound each alternative but the first is a delay.
func (t *Thread) choose(n int) int {
	e := eng
	if !e.delay || t == e.ctl {
		return t.pickOne(n)
	}
	if n > 1 && e.used >= e.bound {
		n, e.cut = 1, true
	}
	c := t.pickOne(n)
	if c > 0 {
		e.used++
	}
	return c
}

func (t *Thread) pickOne(n int) int {
	if n <= 1 {
		return 0
	}
	if t == eng.ctl {
		return 0
	}
	c := eng.decide(n, false)
	if c < 0 {
		eng.abort(t)
	}
	t.chain = mix(t.chain, uint64(c)+0x51)
	t.setContrib()
	if eng.tracing {
		eng.note("T%d chooses %d of %d", t.id, c, n)
	}
	return c
}

// abort ends the execution from inside thread t (after failure or divergence was set).
func (e *Engine) abort(t *Thread) {
	if t == e.ctl || t == e.clock {
		panic("vrt: " + e.failure + e.diverged)
	}
	raceOff()
	e.over = true
	e.cur = e.ctl
	e.done <- struct{}{}
	<-t.resume
	raceOn()
	runtime.Goexit()
}

// Go starts a virtual thread.
func Go(site string, f func()) { spawn(site, f) }

func spawn(site string, f func()) *Thread {
	p := enter()
	e := eng
	p.nspawn++
	t := &Thread{id: len(e.threads), hid: mix(p.hid, p.nspawn+0x33), name: site, site: site, resume: make(chan struct{}, 1), fn: f, status: stReady, rbuf: new([1]uint64)}
	t.chain = mix(p.chain, 0x77)
	t.setContrib()
	if p == e.ctl {
		panic("vrt: go statement outside an execution (" + site + ")")
	}
	if len(e.act)-e.ended >= maxThreads {
		e.capped = true
		e.failNow("too many threads", p)
	}
	e.threads, e.act = append(e.threads, t), append(e.act, t)
	p.chain = mix(p.chain, 0x78)
	p.setContrib()
	e.W++
	e.progress++
	if e.tracing {
		e.note("T%d[%s] starts T%d[%s]", p.id, p.name, t.id, t.name)
	}
	if p == e.clock {
		// the clock runs in whatever goroutine schedules; order explicitly
		raceAcq(p.ra())
	}
	go t.main()
	return t
}

func (t *Thread) main() {
	raceOff()
	<-t.resume
	raceOn()
	defer t.exit()
	if eng.killing {
		return
	}
	t.fn()
	t.finished = true
}

func (t *Thread) exit() {
	e := eng
	if e.killing {
		raceRelM(unsafe.Pointer(e.race))
		t.status = stDone
		raceOff()
		e.ack <- struct{}{}
		raceOn()
		return
	}
	if !t.finished {
		if r := recover(); r != nil {
			msg := fmt.Sprintf("%v", r)
			if len(msg) > 300 {
				msg = msg[:300]
			}
			if e.failure == "" {
				e.failure = "crash: goroutine panicked: " + msg
				if e.tracing {
					e.note("T%d[%s] panics: %s\n%s", t.id, t.name, msg, trimStack(string(debug.Stack())))
				}
			}
			e.crashed = true
		}
	}
	if t.opBegin != nil {
		b := t.opBegin
		t.opBegin = nil
		e.x.beginOp(t, b)
	}
	t.status = stDone
	e.ended++
	t.chain = mix(t.chain, 0xdead)
	t.setContrib()
	e.W++
	raceRelM(unsafe.Pointer(e.race))
	if e.tracing {
		e.tr(t, "ends")
	}
	e.schedule(t)
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	if len(ls) > 40 {
		ls = ls[:40]
	}
	return strings.Join(ls, "\n")
}

func (e *Engine) failNow(msg string, t *Thread) {
	if e.failure == "" {
		e.failure = msg
	}
	if t == e.ctl || t == e.clock {
		return
	}
	e.abort(t)
}

// Gosched is runtime.Gosched. The first call of a thread only offers a switch. Later ones are fair
// (as in CHESS): the thread goes on once shared state has changed since its previous Gosched, and
// once every thread that could have run all the time since then has taken a step.
func Gosched() {
	t := enter()
	if t.noYield {
		return
	}
	e := eng
	t.pkind, t.pop = "Gosched", nil
	t.status = stPending
	first := t.yields == 0
	// W-gate: compare with the state at the previous Gosched
	t.yielding = true
	t.gate = t.gate[:0]
	if first {
		t.lastW = ^uint64(0)
	} else {
		t.lastW = t.yieldW
		for _, g := range t.snap {
			if g.u.ns == g.ns && g.u.enabled() {
				t.gate = append(t.gate, g)
			}
		}
	}
	t.yields++
	t.yieldW = e.W
	t.snap = t.snap[:0]
	for _, u := range e.act {
		if u != t && u.enabled() {
			t.snap = append(t.snap, ysnap{u, u.ns})
		}
	}
	e.schedule(t)
	t.yielding = false
	t.gate = t.gate[:0]
	if e.tracing {
		e.tr(t, "Gosched")
	}
	t.step(0x60, 0, false)
}

// ---- execution and exploration ----

// Scenario is one closed program to explore.
type Scenario struct {
	Name string
	Body func(x *X)
	// Bounds lists the preemption bounds to complete one after the other; -1 is unbounded.
	Bounds []int
	// Delay: the bounds count delays instead: the scheduler is round robin without preemption, passing
	// over k threads costs k delays, and so does any but the first choice of the runtime (select,
	// sync.Pool, map order) cost one.
	Delay bool
	// Seconds caps the exploration of this scenario (0: the runner's share).
	Seconds float64
	// MapOrders: how many candidates a map iteration chooses among at each step (default 8).
	MapOrders int
	// Race: include the scenario in the race pass with this bound (0: bound 1, -1: skip).
	RaceBound int
	// Idle: how many steps a thread may poll on while nothing else can change (default 1500).
	Idle int
	// Horizon: how many steps an execution may have under a delay bound, if more than 400000.
	Horizon int
	// Enum, if set, replaces Body: an enumeration of inputs of sequential code.
	Enum          func(c *Enum)
	Shard, Shards int
}

// Delays makes the scenario delay bounded and keeps it out of the race pass.
func (s *Scenario) Delays(bounds ...int) *Scenario {
	s.Name += " (delays)"
	s.Delay, s.RaceBound, s.Bounds = true, -1, bounds
	return s
}

// Result is what the exploration of one scenario covered.
type Result struct {
	Name       string
	States     int
	Steps      int
	Execs      int
	Pruned     int
	Complete   int
	Outcomes   int
	Replays    int
	Bounds     []int // completed bounds
	Delay      bool  // they count delays
	Exhaustive bool  // last requested bound completed
	Capped     bool
	MaxDepth   int
	Violation  string
	Choices    []int
	AtBound    int
	Trace      []string
	Diverged   string
	Wall       float64
	Samples    []string
	Hang       bool
	Races      int
}

// Reset is called at the start of every execution (set by the generated main).
var Reset func()

func (e *Engine) runOnce(sc *Scenario) {
	e.epoch++
	e.idleMax, e.horizon = 1500, 20000
	if sc.Idle > 0 {
		e.idleMax, e.horizon = sc.Idle, 20000+3*sc.Idle
	}
	if e.enum != nil {
		e.horizon, e.idleMax = 1<<62, 1<<20
	} else if sc.Delay {
		e.horizon = max(400000, sc.Horizon) // these follow few schedules but long ones
	}
	e.threads, e.act, e.ended = e.threads[:0], e.act[:0], 0
	e.F, e.W, e.steps, e.nsteps, e.pos, e.used = 0, 0, 0, 0, 0, 0
	e.killing, e.over, e.pruned, e.capped, e.quiet, e.crashed = false, false, false, false, false, false
	e.failure, e.diverged = "", ""
	e.trace = nil
	e.chans.reset()
	e.addrs.reset()
	e.timers = nil
	e.tseq = 0
	e.now = 0
	e.clock.chain, e.clock.nspawn, e.clock.nobj, e.clock.contrib = 0x7654321, 0, 0, 0
	e.ctl.nobj = 0
	e.unlockPt = false
	e.last = nil
	x := &X{}
	e.x = x
	main := &Thread{id: 0, hid: 0xabcdef, chain: 0x55, name: "main", resume: make(chan struct{}, 1), rbuf: new([1]uint64), status: stReady, harness: true}
	main.fn = func() {
		t := eng.cur
		t.noYield = true
		if Reset != nil {
			Reset()
		}
		t.noYield = false
		sc.Body(x)
	}
	e.threads, e.act = append(e.threads, main), append(e.act, main)
	e.cur = main
	main.setContrib()
	raceRelM(main.ra())
	go main.main()
	raceOff()
	main.resume <- struct{}{}
	<-e.done
	raceOn()
	raceAcq(unsafe.Pointer(e.race))
	raceAcq(unsafe.Pointer(e.raceQ)) // the final checks read what threads that still wait have written
	e.cur = e.ctl
	if e.failure == "" && e.diverged == "" && !e.pruned && !e.capped {
		x.finish()
		if e.failure == "" && RaceErrors() > raceBase {
			e.failure = "data race (see the race detector's report)"
		}
	} else if e.failure == "" && RaceErrors() > raceBase {
		e.failure = "data race (see the race detector's report)"
	}
	// end the threads that are left
	e.killing = true
	for _, t := range e.threads {
		if t.status != stDone {
			e.cur = t
			raceRelM(unsafe.Pointer(e.race))
			raceOff()
			t.resume <- struct{}{}
			<-e.ack
			raceOn()
			raceAcq(unsafe.Pointer(e.race))
		}
	}
	e.killing = false
	e.cur = e.ctl
	raceBase = RaceErrors()
}

var raceBase int

func (e *Engine) choices() []int {
	var r []int
	for i := range e.path {
		r = append(r, e.path[i].c)
	}
	return r
}

// next moves to the next unexplored path; false when the space is exhausted.
func (e *Engine) next() bool {
	for len(e.path) > 0 {
		d := &e.path[len(e.path)-1]
		d.c++
		if d.c < d.n {
			return true
		}
		e.path = e.path[:len(e.path)-1]
	}
	return false
}

// Explore explores a scenario until its bounds are complete or the deadline passes.
func Explore(sc *Scenario, deadline time.Time) (res Result) {
	e := eng
	start := time.Now()
	res.Name, res.Delay = sc.Name, sc.Delay
	if sc.Enum != nil {
		exploreEnum(sc, deadline, &res)
		res.Wall = time.Since(start).Seconds()
		return
	}
	bounds := sc.Bounds
	if len(bounds) == 0 {
		bounds = []int{1, -1}
	}
	e.mapOrd = sc.MapOrders
	if e.mapOrd == 0 {
		e.mapOrd = 8
	}
	e.delay = sc.Delay
	e.caching = true
	outcomes := newSet()
	type saved struct {
		path  []decision
		obs   uint64
		bound int
	}
	var saves []saved
	defer func() {
		res.Wall = time.Since(start).Seconds()
		res.Outcomes = outcomes.n
		e.caching = false
		e.bound = -1
		e.delay = false
		e.path = nil
		e.visited.clear()
	}()
	for bi, b := range bounds {
		e.bound = b
		e.path = e.path[:0]
		e.visited.clear()
		e.cut = false
		first := true
		states := 0
		done := false
		for {
			if !first {
				if !e.next() {
					done = true
					break
				}
				if e.visited.full {
					res.Capped = true
					break
				}
				if (res.Execs&15 == 0 || e.steps > 5000) && time.Now().After(deadline) {
					res.Capped = true
					break
				}
			}
			first = false
			e.runOnce(sc)
			res.Execs++
			res.Steps += e.nsteps
			if len(e.path) > res.MaxDepth {
				res.MaxDepth = len(e.path)
			}
			if e.diverged != "" {
				res.Diverged = e.diverged
				return
			}
			if e.failure != "" {
				res.Violation = e.failure
				res.Choices = e.choices()
				res.AtBound = b
				res.States += e.visited.n
				return
			}
			if e.capped {
				res.Capped = true
				continue
			}
			if e.pruned {
				res.Pruned++
				continue
			}
			res.Complete++
			if outcomes.add(e.x.obsHash()) {
				if len(res.Samples) < 2 {
					res.Samples = append(res.Samples, e.x.describe())
				}
				if bi == len(bounds)-1 || len(saves) < 4 {
					if len(saves) < 8 {
						p := make([]decision, len(e.path))
						for i := range e.path {
							p[i] = e.path[i]
						}
						saves = append(saves, saved{p, e.x.obsHash(), b})
					}
				}
			}
		}
		states = e.visited.n
		res.States += states
		if !done {
			break
		}
		if !res.Capped {
			res.Bounds = append(res.Bounds, b)
		}
		if bi == len(bounds)-1 && !res.Capped {
			res.Exhaustive = true
		}
		if !e.cut && !res.Capped {
			// the bound cut nothing off: this was the whole space
			if b >= 0 {
				res.Bounds = append(res.Bounds, -1)
			}
			res.Exhaustive = true
			break
		}
	}
	// replay some recorded schedules strictly: same decisions, same observations
	e.caching = false
	for _, s := range saves {
		e.path = s.path
		e.bound = s.bound
		e.runOnce(sc)
		if e.diverged != "" {
			res.Diverged = "replay: " + e.diverged
			return
		}
		if e.failure != "" || len(e.path) != len(s.path) || e.x.obsHash() != s.obs {
			res.Diverged = "replay of a recorded schedule gave other observations"
			return
		}
		res.Replays++
	}
	return
}

// Replay runs the schedule given by choices (under the bound it was found with) and returns the failure and the trace.
func Replay(sc *Scenario, bound int, choices []int) (failure string, trace []string, diverged string) {
	e := eng
	if sc.Enum != nil {
		var res Result
		exploreEnum(sc, time.Now().Add(time.Hour), &res)
		return res.Violation, res.Trace, ""
	}
	e.mapOrd = sc.MapOrders
	if e.mapOrd == 0 {
		e.mapOrd = 8
	}
	e.caching = false
	e.bound = bound
	e.delay = sc.Delay
	e.tracing = true
	e.forced(choices)
	e.runOnce(sc)
	e.tracing = false
	e.bound = -1
	e.delay = false
	return e.failure, e.trace, e.diverged
}

func (e *Engine) forced(choices []int) {
	e.path = e.path[:0]
	for _, c := range choices {
		e.path = append(e.path, decision{n: -1, c: c})
	}
}
