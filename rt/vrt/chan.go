package vrt

import (
	"unsafe"
)

type rtError string

func (e rtError) Error() string { return string(e) }
func (e rtError) RuntimeError() {}

type slot struct {
	v    any
	h    uint64
	full bool
	sbuf *[1]uint64 // released by the send, acquired by the receive
	rbuf *[1]uint64 // released by the receive, acquired by the next send in this slot
	rh   uint64
}

type vchan struct {
	Obj
	ptr    unsafe.Pointer
	cap    int
	slots  []slot
	head   int
	count  int
	sum    uint64
	closed bool
	closeH uint64
	nilc   bool
	scan   uint64
	rcv    [2]*Thread
}

var nilChan = &vchan{nilc: true}

func getChan(p unsafe.Pointer, capacity int) *vchan {
	if p == nil {
		return nilChan
	}
	if v := eng.chans.get(p); v != nil {
		c := v.(*vchan)
		if c.epoch == eng.epoch {
			return c
		}
	}
	c := &vchan{ptr: p, cap: capacity}
	c.fresh(eng.cur)
	n := capacity
	if n > 1024 {
		n = 1024 // allocate lazily
	}
	if n > 0 {
		c.slots = make([]slot, n)
	}
	eng.chans.put(p, c)
	return c
}

func (c *vchan) slot(i int) *slot {
	k := (c.head + i) % c.cap
	for k >= len(c.slots) {
		c.slots = append(c.slots, slot{})
	}
	return &c.slots[k]
}

// The slots of a channel with more places are hashed as a polynomial in sumBase, first slot first,
// kept up to date in sum: all slots, or those in use if there are more than 1024.
const smallChan = 16

const sumBase = 0x9e3779b97f4a7c15

var sumPow = []uint64{1}

// power returns the i-th power of sumBase.
func power(i int) uint64 {
	if i >= len(sumPow) {
		p := make([]uint64, 2*i+16)
		p[0] = 1
		for k := 1; k < len(p); k++ {
			p[k] = p[k-1] * sumBase
		}
		sumPow = p
	}
	return sumPow[i]
}

// pushed updates sum for a new value in slot s, after the last one in use.
func (c *vchan) pushed(s *slot) {
	switch {
	case c.cap > 1024:
		c.sum = c.sum*sumBase + s.h
	case c.cap > smallChan:
		c.sum += (s.h - s.rh) * power(c.cap-1-c.count)
	}
}

// popped updates sum for the slot s, the first one, becoming the last free one.
func (c *vchan) popped(s *slot) {
	switch {
	case c.cap > 1024:
		c.sum -= s.h * power(c.count-1)
	case c.cap > smallChan:
		c.sum = (c.sum-s.h*power(c.cap-1))*sumBase + s.rh
	}
}

func (c *vchan) rehash() {
	h := uint64(c.count)
	if c.closed {
		h = mix(h, c.closeH)
	}
	if c.cap > smallChan {
		h = mix(h, c.sum)
	} else if c.cap > 0 {
		for i := 0; i < c.cap; i++ {
			s := &c.slots[(c.head+i)%c.cap]
			if i < c.count {
				h = mix(h, s.h)
			} else {
				h = mix(h, s.rh)
			}
		}
	}
	c.set(h)
}

// Case is one case of a select.
type Case struct {
	Send bool
	ch   *vchan
	v    any
}

type chanOp struct {
	c    *vchan
	send bool
}

// hasRecv reports whether a thread other than t is parked receiving on c.
func (c *vchan) hasRecv(t *Thread) bool {
	if s := eng.scan; s != 0 {
		// pick asks for many threads while nothing changes: find all receivers once
		if eng.marked != s {
			eng.marked = s
			for _, u := range eng.act {
				if u.status != stPending || u.opDone {
					continue
				}
				if u.ch != nil && !u.isSend {
					u.ch.mark(s, u)
				}
				for i := range u.cases {
					if !u.cases[i].Send && !u.poll {
						u.cases[i].ch.mark(s, u)
					}
				}
			}
		}
		return c.scan == s && (c.rcv[0] != t || c.rcv[1] != nil)
	}
	for _, u := range eng.act {
		if u != t && u.parkedOn(c, false) >= 0 {
			return true
		}
	}
	return false
}

// mark notes up to two threads that are parked receiving on c.
func (c *vchan) mark(s uint64, u *Thread) {
	if c.scan != s {
		c.scan, c.rcv = s, [2]*Thread{u}
	} else if c.rcv[0] != u {
		c.rcv[1] = u
	}
}

// parkedOn reports whether u is parked in a blocking channel operation on c in the given
// direction: the case index (0 for a plain operation), or -1.
func (u *Thread) parkedOn(c *vchan, send bool) int {
	if u.status != stPending || u.opDone {
		return -1
	}
	if u.ch == c && u.isSend == send {
		return 0
	}
	if !u.poll {
		for i := range u.cases {
			if u.cases[i].ch == c && u.cases[i].Send == send {
				return i
			}
		}
	}
	return -1
}

func (c *vchan) canSend(t *Thread) bool {
	if c.nilc {
		return false
	}
	if c.closed {
		return true
	}
	if c.cap > 0 {
		return c.count < c.cap
	}
	return c.hasRecv(t)
}

func (c *vchan) canRecv() bool {
	if c.nilc {
		return false
	}
	return c.count > 0 || c.closed
}

type sendOp struct{ *vchan }

func (o sendOp) ready(t *Thread) bool { return o.canSend(t) }
func (o sendOp) what() string         { return "chan send" }

type recvOp struct{ *vchan }

func (o recvOp) ready(t *Thread) bool { return o.canRecv() }
func (o recvOp) what() string         { return "chan receive" }

type selOp struct{ t *Thread }

func (o selOp) what() string { return "select" }
func (o selOp) ready(t *Thread) bool {
	if t.poll {
		return true
	}
	for i := range t.cases {
		cs := &t.cases[i]
		if cs.Send {
			if cs.ch.canSend(t) {
				return true
			}
		} else if cs.ch.canRecv() {
			return true
		}
	}
	return false
}

// wait parks t at a channel operation; it reports whether a partner completed it meanwhile.
func (t *Thread) wait(kind string, o op) bool {
	t.at(kind, o)
	done := t.opDone
	t.opDone = false
	t.ch = nil
	t.cases = nil
	t.poll = false
	if done {
		raceAcq(t.ra())
	}
	return done
}

func (t *Thread) put(c *vchan, v any) {
	s := c.slot(c.count)
	t.step(c.id, mix(s.rh, 0x11), true)
	if s.rbuf != nil {
		raceAcq(unsafe.Pointer(s.rbuf))
	}
	if s.sbuf == nil {
		s.sbuf = new([1]uint64)
	}
	raceRel(unsafe.Pointer(s.sbuf))
	s.v, s.h, s.full = v, t.chain, true
	c.pushed(s)
	c.count++
	c.rehash()
}

func (t *Thread) take(c *vchan) (v any, ok bool) {
	if c.count == 0 {
		// closed
		t.step(c.id, mix(c.closeH, 0x13), false)
		raceAcq(c.ra())
		return nil, false
	}
	s := c.slot(0)
	t.step(c.id, mix(s.h, 0x12), true)
	raceAcq(unsafe.Pointer(s.sbuf))
	if s.rbuf == nil {
		s.rbuf = new([1]uint64)
	}
	raceRel(unsafe.Pointer(s.rbuf))
	v = s.v
	s.v, s.full = nil, false
	s.rh = t.chain
	c.popped(s)
	c.head = (c.head + 1) % c.cap
	c.count--
	c.rehash()
	return v, true
}

// meet completes a rendezvous initiated by t with the parked thread u at case idx of u.
// Exactly one of the two sends.
func (t *Thread) meet(u *Thread, idx int, c *vchan, v any, tSends bool) {
	in := u.chain
	h := t.chain
	t.step(c.id, mix(in, 0x21), true)
	u.step(c.id, mix(h, 0x22), true)
	// both histories up to here are ordered before both continuations
	raceAcq(u.ra())
	raceRel(u.ra())
	if tSends {
		u.resV, u.resOK = v, true
	}
	u.resIdx = idx
	u.opDone = true
	u.status = stReady
	if eng.tracing {
		eng.note("T%d meets T%d on %s", t.id, u.id, c.name())
	}
}

func (c *vchan) name() string {
	if c.nilc {
		return "nil chan"
	}
	if c.seq == 0 {
		eng.tseq++
		c.seq = int(eng.tseq)
	}
	return "ch#" + itoa(c.seq)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}

//go:noinline
func chanSend(p unsafe.Pointer, capacity int, v any) {
	t := enter()
	c := getChan(p, capacity)
	t.ch, t.isSend, t.sendV = c, true, v
	raceRelBeforePark(t)
	if t.wait("send", sendOp{c}) {
		t.sendV = nil
		return
	}
	t.sendV = nil
	if eng.tracing {
		eng.note("send on %s", c.name())
	}
	t.doSend(c, v)
}

// raceRelBeforePark publishes t's history for whoever completes its operation.
func raceRelBeforePark(t *Thread) { raceRel(t.ra()) }

func (t *Thread) doSend(c *vchan, v any) {
	if c.closed {
		t.step(c.id, mix(c.closeH, 0x14), false)
		raceAcq(c.ra())
		panic(rtError("send on closed channel"))
	}
	if c.cap > 0 {
		t.put(c, v)
		return
	}
	// unbuffered: choose the partner
	var us [16]*Thread
	var is [16]int
	n := 0
	for _, u := range eng.act {
		if u != t && n < len(us) {
			if i := u.parkedOn(c, false); i >= 0 {
				us[n], is[n] = u, i
				n++
			}
		}
	}
	if n == 0 {
		panic("vrt: internal: send without partner")
	}
	k := t.choose(n)
	t.meet(us[k], is[k], c, v, true)
}

//go:noinline
func chanRecv(p unsafe.Pointer, capacity int) (any, bool) {
	t := enter()
	c := getChan(p, capacity)
	t.ch, t.isSend = c, false
	raceRelBeforePark(t)
	if t.wait("receive", recvOp{c}) {
		v, ok := t.resV, t.resOK
		t.resV = nil
		return v, ok
	}
	if eng.tracing {
		eng.note("receive from %s", c.name())
	}
	return t.take(c)
}

//go:noinline
func chanClose(p unsafe.Pointer, capacity int) {
	t := enter()
	if p == nil {
		panic(rtError("close of nil channel"))
	}
	c := getChan(p, capacity)
	t.at("close", nil)
	if eng.tracing {
		eng.note("close %s", c.name())
	}
	t.doClose(c)
}

func (t *Thread) doClose(c *vchan) {
	if c.closed {
		t.step(c.id, mix(c.closeH, 0x15), false)
		panic(rtError("close of closed channel"))
	}
	t.step(c.id, 0x16, true)
	raceRel(c.ra())
	c.closed = true
	c.closeH = t.chain
	c.rehash()
}

//go:noinline
func chanLen(p unsafe.Pointer, capacity int) int {
	t := enter()
	if p == nil {
		return 0
	}
	c := getChan(p, capacity)
	t.at("len", nil)
	t.step(c.id, uint64(c.count)+0x17, false)
	return c.count
}

// Select executes a select statement; it returns the index of the chosen case, or -1 for default.
//
//go:noinline
func Select(hasDefault bool, cases ...Case) int {
	t := enter()
	if len(cases) == 0 && hasDefault {
		return -1
	}
	t.cases, t.poll = cases, hasDefault
	t.ch = nil
	raceRelBeforePark(t)
	if t.wait("select", selOp{t}) {
		return t.resIdx
	}
	// alternatives: (case, partner)
	var ci [32]int
	var pu [32]*Thread
	var pi [32]int
	n := 0
	definite := 0
	for i := range cases {
		c := cases[i].ch
		if c.nilc {
			continue
		}
		if cases[i].Send {
			if c.closed || (c.cap > 0 && c.count < c.cap) {
				ci[n], pu[n] = i, nil
				n++
				definite++
			}
		} else if c.canRecv() {
			ci[n], pu[n] = i, nil
			n++
			definite++
		}
		if n > 24 {
			break
		}
	}
	for i := range cases {
		c := cases[i].ch
		if c.nilc || c.closed || c.cap > 0 {
			continue
		}
		// a sender may always pair with a parked receiver; a receiver starts the
		// rendezvous itself only when polling, otherwise the parked sender does
		if cases[i].Send || hasDefault {
			for _, u := range eng.act {
				if u != t && n < 30 {
					if j := u.parkedOn(c, !cases[i].Send); j >= 0 {
						ci[n], pu[n], pi[n] = i, u, j
						n++
					}
				}
			}
		}
	}
	alts := n
	if hasDefault && definite == 0 {
		alts++
	}
	if alts == 0 {
		panic("vrt: internal: select without alternatives")
	}
	k := t.choose(alts)
	if k == n {
		// default: the state of the polled channels was observed
		h := uint64(0x18)
		for i := range cases {
			if !cases[i].ch.nilc {
				h = mix(h, cases[i].ch.id)
			}
		}
		t.step(h, 0, false)
		if eng.tracing {
			eng.note("default")
		}
		return -1
	}
	i := ci[k]
	cs := &cases[i]
	if eng.tracing {
		eng.note("case %d (%s)", i, cs.ch.name())
	}
	if u := pu[k]; u != nil {
		if cs.Send {
			t.meet(u, pi[k], cs.ch, cs.v, true)
		} else {
			v := u.sendV
			if u.ch == nil || len(u.cases) > 0 {
				v = u.cases[pi[k]].v
			}
			t.meet(u, pi[k], cs.ch, nil, false)
			t.resV, t.resOK = v, true
		}
		return i
	}
	if cs.Send {
		t.doSend(cs.ch, cs.v)
		return i
	}
	t.resV, t.resOK = t.take(cs.ch)
	return i
}

// ---- generic wrappers, instantiated in the instrumented packages ----
// They touch only their own values; everything shared is behind non-generic calls.

// SC wraps the sending side of a channel.
type SC[T any] struct {
	p unsafe.Pointer
	n int
}

// RC wraps the receiving side of a channel.
type RC[T any] struct {
	p unsafe.Pointer
	n int
}

func S[T any](ch chan<- T) SC[T] { return SC[T]{*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch)} }
func R[T any](ch <-chan T) RC[T] { return RC[T]{*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch)} }

func (s SC[T]) Send(v T) { chanSend(s.p, s.n, v) }

func (r RC[T]) Recv() T {
	x, _ := chanRecv(r.p, r.n)
	v, _ := x.(T)
	return v
}

func (r RC[T]) Recv2() (T, bool) {
	x, ok := chanRecv(r.p, r.n)
	v, _ := x.(T)
	return v, ok
}

// Next receives into v and reports whether the channel is still open (range loops).
func (r RC[T]) Next(v *T) bool {
	x, ok := chanRecv(r.p, r.n)
	if ok {
		y, _ := x.(T)
		*v = y
	}
	return ok
}

// Skip receives and drops a value (range loops without variables).
func (r RC[T]) Skip() bool {
	_, ok := chanRecv(r.p, r.n)
	return ok
}

// RangeInit starts a range loop over a channel and declares its variable.
func RangeInit[T any](ch <-chan T) (RC[T], T) {
	var z T
	return R(ch), z
}

func (s SC[T]) Case(v T) Case { return mkCase(true, s.p, s.n, v) }
func (r RC[T]) Case() Case    { return mkCase(false, r.p, r.n, nil) }

// Val is the value received by the select that just chose this case.
func (r RC[T]) Val() T {
	x, _ := selRes()
	v, _ := x.(T)
	return v
}

func (r RC[T]) Val2() (T, bool) {
	x, ok := selRes()
	v, _ := x.(T)
	return v, ok
}

//go:noinline
func mkCase(send bool, p unsafe.Pointer, n int, v any) Case {
	enter()
	return Case{send, getChan(p, n), v}
}

//go:noinline
func selRes() (any, bool) {
	t := eng.cur
	v, ok := t.resV, t.resOK
	t.resV = nil
	return v, ok
}

func Close[T any](ch chan<- T) { chanClose(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch)) }

func LenS[T any](ch chan<- T) int { return chanLen(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch)) }
func LenR[T any](ch <-chan T) int { return chanLen(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch)) }
