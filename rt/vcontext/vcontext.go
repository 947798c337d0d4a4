// Package vcontext replaces package context in instrumented code.
package vcontext

import "github.com/chenquan/go-pkg/zverif/vrt"

var (
	WithCancel        = vrt.WithCancel
	WithCancelCause   = vrt.WithCancelCause
	WithTimeout       = vrt.WithTimeout
	WithTimeoutCause  = vrt.WithTimeoutCause
	WithDeadline      = vrt.WithDeadline
	WithDeadlineCause = vrt.WithDeadlineCause
	WithValue         = vrt.WithValue
	WithoutCancel     = vrt.WithoutCancel
	AfterFunc         = vrt.CtxAfterFunc
	Cause             = vrt.Cause
)
