package vrt

import (
	"sync"
	"unsafe"
)

// ---- Mutex ----

// Mutex replaces sync.Mutex.
type Mutex struct {
	o      Obj
	locked bool
	owner  int
	h      uint64
}

func (m *Mutex) init(t *Thread) {
	if m.o.fresh(t) {
		m.locked, m.h = false, 0
	}
}

func (m *Mutex) ready(t *Thread) bool { return !m.locked }
func (m *Mutex) what() string         { return "mutex lock" }

func (m *Mutex) rehash() {
	h := m.h
	if m.locked {
		h = mix(h, uint64(m.owner)+7)
	}
	m.o.set(h)
}

//go:noinline
func (m *Mutex) Lock() {
	t := enter()
	m.init(t)
	t.at("Mutex.Lock", m)
	m.acquire(t)
}

func (m *Mutex) acquire(t *Thread) {
	t.step(m.o.id, m.h, true)
	raceAcq(m.o.ra())
	m.locked, m.owner = true, int(t.hid)
	m.rehash()
}

//go:noinline
func (m *Mutex) TryLock() bool {
	t := enter()
	m.init(t)
	eng.unlockPt = true
	t.at("Mutex.TryLock", nil)
	if m.locked {
		t.step(m.o.id, 0x31, false)
		return false
	}
	m.acquire(t)
	return true
}

//go:noinline
func (m *Mutex) Unlock() {
	t := enter()
	m.init(t)
	if eng.unlockPt {
		t.at("Mutex.Unlock", nil)
	}
	if !m.locked {
		eng.failNow("fatal error: sync: unlock of unlocked mutex", t)
		return
	}
	t.step(m.o.id, 0x32, true)
	raceRel(m.o.ra())
	m.locked = false
	m.h = t.chain
	m.rehash()
}

// ---- RWMutex ----

// RWMutex replaces sync.RWMutex; a waiting writer blocks new readers.
type RWMutex struct {
	o       Obj
	writer  bool
	waiting bool // a writer announced itself
	readers int
	h       uint64 // last writer's release
	rh      uint64 // readers' releases since
	wbuf    *[1]uint64
}

func (m *RWMutex) init(t *Thread) {
	if m.o.fresh(t) {
		m.writer, m.waiting, m.readers, m.h, m.rh = false, false, 0, 0, 0
		m.wbuf = new([1]uint64)
	}
}

func (m *RWMutex) rehash() {
	h := mix(m.h, m.rh)
	h = mix(h, uint64(m.readers))
	if m.writer {
		h = mix(h, 1)
	}
	if m.waiting {
		h = mix(h, 2)
	}
	m.o.set(h)
}

type rwR struct{ *RWMutex }
type rwA struct{ *RWMutex }
type rwW struct{ *RWMutex }

func (m rwR) ready(t *Thread) bool { return !m.writer && !m.waiting }
func (m rwR) what() string         { return "RWMutex.RLock" }
func (m rwA) ready(t *Thread) bool { return !m.writer && !m.waiting }
func (m rwA) what() string         { return "RWMutex.Lock" }
func (m rwW) ready(t *Thread) bool { return m.readers == 0 }
func (m rwW) what() string         { return "RWMutex.Lock" }

//go:noinline
func (m *RWMutex) Lock() {
	t := enter()
	m.init(t)
	t.at("RWMutex.Lock", rwA{m})
	if m.readers > 0 {
		m.waiting = true
		t.step(m.o.id, 0x41, true)
		m.rehash()
		t.at("RWMutex.Lock(wait readers)", rwW{m})
		m.waiting = false
	}
	m.wacquire(t)
}

func (m *RWMutex) wacquire(t *Thread) {
	t.step(m.o.id, mix(m.h, m.rh), true)
	raceAcq(m.o.ra())
	raceAcq(unsafe.Pointer(m.wbuf))
	m.writer = true
	m.rehash()
}

//go:noinline
func (m *RWMutex) TryLock() bool {
	t := enter()
	m.init(t)
	eng.unlockPt = true
	t.at("RWMutex.TryLock", nil)
	if m.writer || m.waiting || m.readers > 0 {
		t.step(m.o.id, 0x42, false)
		return false
	}
	m.wacquire(t)
	return true
}

//go:noinline
func (m *RWMutex) Unlock() {
	t := enter()
	m.init(t)
	if eng.unlockPt {
		t.at("RWMutex.Unlock", nil)
	}
	if !m.writer {
		eng.failNow("fatal error: sync: Unlock of unlocked RWMutex", t)
		return
	}
	t.step(m.o.id, 0x43, true)
	raceRel(m.o.ra())
	m.writer = false
	m.h, m.rh = t.chain, 0
	m.wbuf = new([1]uint64)
	m.rehash()
}

//go:noinline
func (m *RWMutex) RLock() {
	t := enter()
	m.init(t)
	t.at("RWMutex.RLock", rwR{m})
	m.racquire(t)
}

func (m *RWMutex) racquire(t *Thread) {
	t.step(m.o.id, mix(m.h, 0x44), true)
	raceAcq(m.o.ra())
	m.readers++
	m.rehash()
}

//go:noinline
func (m *RWMutex) TryRLock() bool {
	t := enter()
	m.init(t)
	eng.unlockPt = true
	t.at("RWMutex.TryRLock", nil)
	if m.writer || m.waiting {
		t.step(m.o.id, 0x45, false)
		return false
	}
	m.racquire(t)
	return true
}

//go:noinline
func (m *RWMutex) RUnlock() {
	t := enter()
	m.init(t)
	if eng.unlockPt {
		t.at("RWMutex.RUnlock", nil)
	}
	if m.readers <= 0 {
		eng.failNow("fatal error: sync: RUnlock of unlocked RWMutex", t)
		return
	}
	t.step(m.o.id, 0x46, true)
	raceRelM(unsafe.Pointer(m.wbuf))
	m.readers--
	m.rh += mix(t.chain, 0x47)
	m.rehash()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// ---- WaitGroup ----

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	o Obj
	n int
	h uint64
}

func (w *WaitGroup) init(t *Thread) {
	if w.o.fresh(t) {
		w.n, w.h = 0, 0
	}
}

func (w *WaitGroup) ready(t *Thread) bool { return w.n == 0 }
func (w *WaitGroup) what() string         { return "WaitGroup.Wait" }

//go:noinline
func (w *WaitGroup) Add(d int) {
	t := enter()
	w.init(t)
	if d > 0 {
		t.at("WaitGroup.Add", nil)
	}
	t.step(w.o.id, 0x51, true)
	raceRelM(w.o.ra())
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	w.h += mix(t.chain, 0x52)
	w.o.set(mix(w.h, uint64(w.n)))
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:noinline
func (w *WaitGroup) Wait() {
	t := enter()
	w.init(t)
	t.at("WaitGroup.Wait", w)
	t.step(w.o.id, w.h, false)
	raceAcq(w.o.ra())
}

//go:noinline
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	spawn("WaitGroup.Go", func() {
		defer w.Done()
		f()
	})
}

// ---- Once ----

// Once replaces sync.Once.
type Once struct {
	o       Obj
	running bool
	done    bool
	h       uint64
}

func (o *Once) ready(t *Thread) bool { return !o.running }
func (o *Once) what() string         { return "Once.Do" }

//go:noinline
func (o *Once) Do(f func()) {
	t := enter()
	if o.o.fresh(t) {
		o.running, o.done, o.h = false, false, 0
	}
	t.at("Once.Do", o)
	if o.done {
		t.step(o.o.id, o.h, false)
		raceAcq(o.o.ra())
		return
	}
	o.running = true
	t.step(o.o.id, 0x61, true)
	o.o.set(1)
	defer o.finish()
	f()
}

func (o *Once) finish() {
	t := enter()
	o.running, o.done = false, true
	t.step(o.o.id, 0x62, true)
	raceRel(o.o.ra())
	o.h = t.chain
	o.o.set(o.h)
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	return func() {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			f = nil
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var once Once
	var r T
	return func() T {
		once.Do(func() { r = f() })
		return r
	}
}

// OnceValues replaces sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var once Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) {
		once.Do(func() { r1, r2 = f() })
		return r1, r2
	}
}

// ---- Cond ----

// Cond replaces sync.Cond.
type Cond struct {
	L sync.Locker
	o Obj
	q []*condWait
}

type condWait struct {
	woken bool
	h     uint64
	rbuf  [1]uint64
}

func (w *condWait) ready(t *Thread) bool { return w.woken }
func (w *condWait) what() string         { return "Cond.Wait" }

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) init(t *Thread) {
	if c.o.fresh(t) {
		c.q = nil
	}
}

//go:noinline
func (c *Cond) Wait() {
	t := enter()
	c.init(t)
	w := &condWait{}
	t.step(c.o.id, 0x71, true)
	c.q = append(c.q, w)
	c.o.set(mix(c.o.contrib, t.chain))
	c.L.Unlock()
	t.at("Cond.Wait", w)
	t.step(c.o.id, w.h, true)
	raceAcq(unsafe.Pointer(&w.rbuf))
	c.L.Lock()
}

func (c *Cond) wake(t *Thread, w *condWait) {
	w.woken = true
	w.h = t.chain
	raceRel(unsafe.Pointer(&w.rbuf))
}

//go:noinline
func (c *Cond) Signal() {
	t := enter()
	c.init(t)
	t.at("Cond.Signal", nil)
	t.step(c.o.id, 0x72, true)
	if len(c.q) > 0 {
		c.wake(t, c.q[0])
		c.q = c.q[1:]
	}
	c.o.set(mix(c.o.contrib, t.chain))
}

//go:noinline
func (c *Cond) Broadcast() {
	t := enter()
	c.init(t)
	t.at("Cond.Broadcast", nil)
	t.step(c.o.id, 0x73, true)
	for _, w := range c.q {
		c.wake(t, w)
	}
	c.q = nil
	c.o.set(mix(c.o.contrib, t.chain))
}

// ---- Pool ----

type poolItem struct {
	v    any
	h    uint64
	rbuf *[1]uint64
}

// Pool replaces sync.Pool: Get returns any item put earlier, or a new one.
type Pool struct {
	New   func() any
	o     Obj
	items []poolItem
}

func (p *Pool) init(t *Thread) {
	if p.o.fresh(t) {
		p.items = nil
	}
}

func (p *Pool) rehash() {
	h := uint64(len(p.items))
	for i := range p.items {
		h += mix(p.items[i].h, 0x81)
	}
	p.o.set(h)
}

//go:noinline
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	t := enter()
	p.init(t)
	t.at("Pool.Put", nil)
	t.step(p.o.id, 0x82, true)
	it := poolItem{v: v, h: t.chain, rbuf: new([1]uint64)}
	raceRel(unsafe.Pointer(it.rbuf))
	p.items = append(p.items, it)
	p.rehash()
}

//go:noinline
func (p *Pool) Get() any {
	t := enter()
	p.init(t)
	t.at("Pool.Get", nil)
	n := len(p.items)
	alts := n + 1
	k := t.choose(alts) // 0: most recent item, ..., n: none
	if k == n {
		t.step(p.o.id, 0x83, false)
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	i := n - 1 - k
	it := p.items[i]
	t.step(p.o.id, it.h, true)
	raceAcq(unsafe.Pointer(it.rbuf))
	var rest []poolItem
	for j := range p.items {
		if j != i {
			rest = append(rest, p.items[j])
		}
	}
	p.items = rest
	p.rehash()
	return it.v
}

// ---- Map ----

// Map replaces sync.Map; every method is one atomic step (Range: one per element).
type Map struct {
	o    Obj
	keys []any
	vals []any
	h    uint64
}

func (m *Map) enter(kind string) *Thread {
	t := enter()
	if m.o.fresh(t) {
		m.keys, m.vals, m.h = nil, nil, 0
	}
	t.at(kind, nil)
	return t
}

func (m *Map) find(k any) int {
	for i := range m.keys {
		if m.keys[i] == k {
			return i
		}
	}
	return -1
}

func (m *Map) read(t *Thread) {
	t.step(m.o.id, m.h, false)
	raceAcq(m.o.ra())
}

func (m *Map) wrote(t *Thread) {
	t.step(m.o.id, mix(m.h, 0x91), true)
	raceAcq(m.o.ra())
	raceRelM(m.o.ra())
	m.h = t.chain
	m.o.set(m.h)
}

func (m *Map) del(i int) {
	var ks, vs []any
	for j := range m.keys {
		if j != i {
			ks = append(ks, m.keys[j])
			vs = append(vs, m.vals[j])
		}
	}
	m.keys, m.vals = ks, vs
}

//go:noinline
func (m *Map) Load(k any) (any, bool) {
	t := m.enter("sync.Map.Load")
	m.read(t)
	if i := m.find(k); i >= 0 {
		return m.vals[i], true
	}
	return nil, false
}

//go:noinline
func (m *Map) Store(k, v any) { m.Swap(k, v) }

//go:noinline
func (m *Map) Swap(k, v any) (prev any, loaded bool) {
	t := m.enter("sync.Map.Swap")
	m.wrote(t)
	if i := m.find(k); i >= 0 {
		prev, loaded = m.vals[i], true
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	return nil, false
}

//go:noinline
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	t := m.enter("sync.Map.LoadOrStore")
	if i := m.find(k); i >= 0 {
		m.read(t)
		return m.vals[i], true
	}
	m.wrote(t)
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	return v, false
}

//go:noinline
func (m *Map) LoadAndDelete(k any) (any, bool) {
	t := m.enter("sync.Map.LoadAndDelete")
	if i := m.find(k); i >= 0 {
		m.wrote(t)
		v := m.vals[i]
		m.del(i)
		return v, true
	}
	m.read(t)
	return nil, false
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:noinline
func (m *Map) CompareAndSwap(k, old, new any) bool {
	t := m.enter("sync.Map.CompareAndSwap")
	if i := m.find(k); i >= 0 && m.vals[i] == old {
		m.wrote(t)
		m.vals[i] = new
		return true
	}
	m.read(t)
	return false
}

//go:noinline
func (m *Map) CompareAndDelete(k, old any) bool {
	t := m.enter("sync.Map.CompareAndDelete")
	if i := m.find(k); i >= 0 && m.vals[i] == old {
		m.wrote(t)
		m.del(i)
		return true
	}
	m.read(t)
	return false
}

//go:noinline
func (m *Map) Clear() {
	t := m.enter("sync.Map.Clear")
	m.wrote(t)
	m.keys, m.vals = nil, nil
}

//go:noinline
func (m *Map) Range(f func(k, v any) bool) {
	t := m.enter("sync.Map.Range")
	m.read(t)
	var ks []any
	for _, k := range m.keys {
		ks = append(ks, k)
	}
	for len(ks) > 0 {
		i := 0
		if len(ks) > 1 && eng.mapOrd > 1 {
			i = eng.cur.choose(min(len(ks), eng.mapOrd))
		}
		k := ks[i]
		var rest []any
		for j := range ks {
			if j != i {
				rest = append(rest, ks[j])
			}
		}
		ks = rest
		v, ok := m.Load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
