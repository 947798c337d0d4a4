// Package vatomic replaces package sync/atomic in instrumented code.
package vatomic

import "github.com/chenquan/go-pkg/zverif/vrt"

type (
	Int32   = vrt.Int32
	Int64   = vrt.Int64
	Uint32  = vrt.Uint32
	Uint64  = vrt.Uint64
	Uintptr = vrt.Uintptr
	Bool    = vrt.Bool
	Value   = vrt.Value
)

var (
	LoadInt32             = vrt.LoadInt32
	LoadInt64             = vrt.LoadInt64
	LoadUint32            = vrt.LoadUint32
	LoadUint64            = vrt.LoadUint64
	LoadUintptr           = vrt.LoadUintptr
	LoadPointer           = vrt.LoadPointer
	StoreInt32            = vrt.StoreInt32
	StoreInt64            = vrt.StoreInt64
	StoreUint32           = vrt.StoreUint32
	StoreUint64           = vrt.StoreUint64
	StoreUintptr          = vrt.StoreUintptr
	StorePointer          = vrt.StorePointer
	AddInt32              = vrt.AddInt32
	AddInt64              = vrt.AddInt64
	AddUint32             = vrt.AddUint32
	AddUint64             = vrt.AddUint64
	AddUintptr            = vrt.AddUintptr
	SwapInt32             = vrt.SwapInt32
	SwapInt64             = vrt.SwapInt64
	SwapUint32            = vrt.SwapUint32
	SwapUint64            = vrt.SwapUint64
	SwapUintptr           = vrt.SwapUintptr
	SwapPointer           = vrt.SwapPointer
	CompareAndSwapInt32   = vrt.CompareAndSwapInt32
	CompareAndSwapInt64   = vrt.CompareAndSwapInt64
	CompareAndSwapUint32  = vrt.CompareAndSwapUint32
	CompareAndSwapUint64  = vrt.CompareAndSwapUint64
	CompareAndSwapUintptr = vrt.CompareAndSwapUintptr
	CompareAndSwapPointer = vrt.CompareAndSwapPointer
	AndInt32              = vrt.AndInt32
	AndInt64              = vrt.AndInt64
	AndUint32             = vrt.AndUint32
	AndUint64             = vrt.AndUint64
	OrInt32               = vrt.OrInt32
	OrInt64               = vrt.OrInt64
	OrUint32              = vrt.OrUint32
	OrUint64              = vrt.OrUint64
)

// Pointer replaces atomic.Pointer.
type Pointer[T any] struct{ vrt.Pointer[T] }
