//go:build race

package vrt

import (
	"runtime"
	"unsafe"
)

const RaceMode = true

func raceOff()                  { runtime.RaceDisable() }
func raceOn()                   { runtime.RaceEnable() }
func raceAcq(p unsafe.Pointer)  { runtime.RaceAcquire(p) }
func raceRel(p unsafe.Pointer)  { runtime.RaceRelease(p) }
func raceRelM(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
