package vrt

import (
	"sync/atomic"
	"unsafe"
)

// acell is the hashed history of an atomically accessed address.
type acell struct {
	Obj
	h uint64
}

func cellAt(p unsafe.Pointer) *acell {
	t := enter()
	if v := eng.addrs.get(p); v != nil {
		c := v.(*acell)
		if c.epoch == eng.epoch {
			return c
		}
	}
	c := &acell{}
	c.fresh(t)
	eng.addrs.put(p, c)
	return c
}

//go:noinline
func aBefore(p unsafe.Pointer, kind string) *acell {
	c := cellAt(p)
	eng.cur.at(kind, nil)
	return c
}

func (c *acell) loaded() { eng.cur.step(c.id, c.h, false) }

func (c *acell) stored() {
	t := eng.cur
	t.step(c.id, 0xa1, true)
	c.h = t.chain
	c.set(c.h)
}

func (c *acell) rmw() {
	t := eng.cur
	t.step(c.id, mix(c.h, 0xa2), true)
	c.h = t.chain
	c.set(c.h)
}

func (c *acell) failed() { eng.cur.step(c.id, mix(c.h, 0xa3), false) }

// The real operations are called through variables: in the race build this reaches the race
// detector's versions (the compiler would otherwise inline plain instructions here), so that
// atomic and plain accesses to one address are seen as conflicting, and atomics order as in Go.
var (
	fLoad32  = atomic.LoadUint32
	fLoad64  = atomic.LoadUint64
	fStore32 = atomic.StoreUint32
	fStore64 = atomic.StoreUint64
	fAdd32   = atomic.AddUint32
	fAdd64   = atomic.AddUint64
	fSwap32  = atomic.SwapUint32
	fSwap64  = atomic.SwapUint64
	fCAS32   = atomic.CompareAndSwapUint32
	fCAS64   = atomic.CompareAndSwapUint64
	fLoadP   = atomic.LoadPointer
	fStoreP  = atomic.StorePointer
	fSwapP   = atomic.SwapPointer
	fCASP    = atomic.CompareAndSwapPointer
)

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func p32[T integer](p *T) *uint32 { return (*uint32)(unsafe.Pointer(p)) }
func p64[T integer](p *T) *uint64 { return (*uint64)(unsafe.Pointer(p)) }

func aLoad[T integer](p *T) T {
	c := aBefore(unsafe.Pointer(p), "atomic load")
	c.loaded()
	if unsafe.Sizeof(*p) == 4 {
		return T(fLoad32(p32(p)))
	}
	return T(fLoad64(p64(p)))
}

func aStore[T integer](p *T, v T) {
	c := aBefore(unsafe.Pointer(p), "atomic store")
	c.stored()
	if unsafe.Sizeof(*p) == 4 {
		fStore32(p32(p), uint32(v))
	} else {
		fStore64(p64(p), uint64(v))
	}
}

func aAdd[T integer](p *T, d T) T {
	c := aBefore(unsafe.Pointer(p), "atomic add")
	c.rmw()
	if unsafe.Sizeof(*p) == 4 {
		return T(fAdd32(p32(p), uint32(d)))
	}
	return T(fAdd64(p64(p), uint64(d)))
}

// rawSwap swaps without a scheduling point.
func rawSwap[T integer](p *T, v T) T {
	if unsafe.Sizeof(*p) == 4 {
		return T(fSwap32(p32(p), uint32(v)))
	}
	return T(fSwap64(p64(p), uint64(v)))
}

func rawLoad[T integer](p *T) T {
	if unsafe.Sizeof(*p) == 4 {
		return T(fLoad32(p32(p)))
	}
	return T(fLoad64(p64(p)))
}

func aAnd[T integer](p *T, m T) T {
	c := aBefore(unsafe.Pointer(p), "atomic and")
	c.rmw()
	return rawSwap(p, rawLoad(p)&m)
}

func aOr[T integer](p *T, m T) T {
	c := aBefore(unsafe.Pointer(p), "atomic or")
	c.rmw()
	return rawSwap(p, rawLoad(p)|m)
}

func aSwap[T integer](p *T, v T) T {
	c := aBefore(unsafe.Pointer(p), "atomic swap")
	c.rmw()
	return rawSwap(p, v)
}

func aCAS[T integer](p *T, o, n T) bool {
	c := aBefore(unsafe.Pointer(p), "atomic cas")
	var ok bool
	if unsafe.Sizeof(*p) == 4 {
		ok = fCAS32(p32(p), uint32(o), uint32(n))
	} else {
		ok = fCAS64(p64(p), uint64(o), uint64(n))
	}
	if ok {
		c.rmw()
	} else {
		c.failed()
	}
	return ok
}

//go:noinline
func LoadInt32(p *int32) int32 { return aLoad(p) }

//go:noinline
func LoadInt64(p *int64) int64 { return aLoad(p) }

//go:noinline
func LoadUint32(p *uint32) uint32 { return aLoad(p) }

//go:noinline
func LoadUint64(p *uint64) uint64 { return aLoad(p) }

//go:noinline
func LoadUintptr(p *uintptr) uintptr { return aLoad(p) }

//go:noinline
func StoreInt32(p *int32, v int32) { aStore(p, v) }

//go:noinline
func StoreInt64(p *int64, v int64) { aStore(p, v) }

//go:noinline
func StoreUint32(p *uint32, v uint32) { aStore(p, v) }

//go:noinline
func StoreUint64(p *uint64, v uint64) { aStore(p, v) }

//go:noinline
func StoreUintptr(p *uintptr, v uintptr) { aStore(p, v) }

//go:noinline
func AddInt32(p *int32, v int32) int32 { return aAdd(p, v) }

//go:noinline
func AddInt64(p *int64, v int64) int64 { return aAdd(p, v) }

//go:noinline
func AddUint32(p *uint32, v uint32) uint32 { return aAdd(p, v) }

//go:noinline
func AddUint64(p *uint64, v uint64) uint64 { return aAdd(p, v) }

//go:noinline
func AddUintptr(p *uintptr, v uintptr) uintptr { return aAdd(p, v) }

//go:noinline
func AndInt32(p *int32, v int32) int32 { return aAnd(p, v) }

//go:noinline
func AndInt64(p *int64, v int64) int64 { return aAnd(p, v) }

//go:noinline
func AndUint32(p *uint32, v uint32) uint32 { return aAnd(p, v) }

//go:noinline
func AndUint64(p *uint64, v uint64) uint64 { return aAnd(p, v) }

//go:noinline
func OrInt32(p *int32, v int32) int32 { return aOr(p, v) }

//go:noinline
func OrInt64(p *int64, v int64) int64 { return aOr(p, v) }

//go:noinline
func OrUint32(p *uint32, v uint32) uint32 { return aOr(p, v) }

//go:noinline
func OrUint64(p *uint64, v uint64) uint64 { return aOr(p, v) }

//go:noinline
func SwapInt32(p *int32, v int32) int32 { return aSwap(p, v) }

//go:noinline
func SwapInt64(p *int64, v int64) int64 { return aSwap(p, v) }

//go:noinline
func SwapUint32(p *uint32, v uint32) uint32 { return aSwap(p, v) }

//go:noinline
func SwapUint64(p *uint64, v uint64) uint64 { return aSwap(p, v) }

//go:noinline
func SwapUintptr(p *uintptr, v uintptr) uintptr { return aSwap(p, v) }

//go:noinline
func CompareAndSwapInt32(p *int32, o, n int32) bool { return aCAS(p, o, n) }

//go:noinline
func CompareAndSwapInt64(p *int64, o, n int64) bool { return aCAS(p, o, n) }

//go:noinline
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return aCAS(p, o, n) }

//go:noinline
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return aCAS(p, o, n) }

//go:noinline
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { return aCAS(p, o, n) }

//go:noinline
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	c := aBefore(unsafe.Pointer(p), "atomic load")
	c.loaded()
	return fLoadP(p)
}

//go:noinline
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	c := aBefore(unsafe.Pointer(p), "atomic store")
	c.stored()
	fStoreP(p, v)
}

//go:noinline
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	c := aBefore(unsafe.Pointer(p), "atomic swap")
	c.rmw()
	return fSwapP(p, v)
}

//go:noinline
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	c := aBefore(unsafe.Pointer(p), "atomic cas")
	ok := fCASP(p, o, n)
	if ok {
		c.rmw()
	} else {
		c.failed()
	}
	return ok
}

// ---- atomic types ----
// Real atomics hold the values so that plain writes over them stay visible to the race detector.

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(m int64) int64              { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(&x.v, m) }

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(&x.v, m) }

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }

type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b32(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b32(v)) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b32(o), b32(n)) }

type Pointer[T any] struct {
	_ [0]*T
	v unsafe.Pointer
}

func (x *Pointer[T]) Load() *T     { return (*T)(LoadPointer(&x.v)) }
func (x *Pointer[T]) Store(v *T)   { StorePointer(&x.v, unsafe.Pointer(v)) }
func (x *Pointer[T]) Swap(v *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(v))) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(o), unsafe.Pointer(n))
}

// Value replaces atomic.Value; a real atomic.Value holds the value, so panics and
// the effect of overwriting the struct are the real ones.
type Value struct {
	v atomic.Value
}

//go:noinline
func (x *Value) Load() any {
	c := aBefore(unsafe.Pointer(x), "Value.Load")
	c.loaded()
	return x.v.Load()
}

//go:noinline
func (x *Value) Store(v any) {
	c := aBefore(unsafe.Pointer(x), "Value.Store")
	c.stored()
	x.v.Store(v)
}

//go:noinline
func (x *Value) Swap(v any) any {
	c := aBefore(unsafe.Pointer(x), "Value.Swap")
	c.rmw()
	return x.v.Swap(v)
}

//go:noinline
func (x *Value) CompareAndSwap(o, n any) bool {
	c := aBefore(unsafe.Pointer(x), "Value.CompareAndSwap")
	// the real operation decides; a failed one changes nothing
	before := c.h
	c.rmw()
	ok := x.v.CompareAndSwap(o, n)
	if !ok {
		c.h = before
		c.set(before)
		eng.cur.chain = mix(eng.cur.chain, 0xa9)
		eng.cur.setContrib()
	}
	return ok
}
