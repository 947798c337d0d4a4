// Package vrand replaces the global functions of package math/rand in instrumented code.
package vrand

import "github.com/chenquan/go-pkg/zverif/vrt"

var (
	Intn    = vrt.Intn
	Int31n  = vrt.Int31n
	Int63n  = vrt.Int63n
	Int     = vrt.RInt
	Int31   = vrt.RInt31
	Int63   = vrt.RInt63
	Uint32  = vrt.RUint32
	Uint64  = vrt.RUint64
	Float64 = vrt.RFloat64
	Float32 = vrt.RFloat32
	Seed    = vrt.RSeed
	Perm    = vrt.RPerm
	Shuffle = vrt.RShuffle
)
