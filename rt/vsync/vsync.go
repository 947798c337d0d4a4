// Package vsync replaces package sync in instrumented code.
package vsync

import (
	"sync"

	"github.com/chenquan/go-pkg/zverif/vrt"
)

type (
	Mutex     = vrt.Mutex
	RWMutex   = vrt.RWMutex
	WaitGroup = vrt.WaitGroup
	Once      = vrt.Once
	Cond      = vrt.Cond
	Pool      = vrt.Pool
	Map       = vrt.Map
	Locker    = sync.Locker
)

var (
	NewCond  = vrt.NewCond
	OnceFunc = vrt.OnceFunc
)

func OnceValue[T any](f func() T) func() T { return vrt.OnceValue(f) }

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return vrt.OnceValues(f) }
