// Package vtime replaces the clock functions of package time in instrumented code.
package vtime

import "github.com/chenquan/go-pkg/zverif/vrt"

type (
	Timer  = vrt.Timer
	Ticker = vrt.Ticker
)

var (
	Sleep     = vrt.Sleep
	Now       = vrt.Now
	Since     = vrt.Since
	Until     = vrt.Until
	NewTimer  = vrt.NewTimer
	After     = vrt.After
	AfterFunc = vrt.AfterFunc
	NewTicker = vrt.NewTicker
	Tick      = vrt.Tick
)
