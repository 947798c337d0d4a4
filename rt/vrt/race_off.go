//go:build !race

package vrt

import "unsafe"

const RaceMode = false

func raceOff()                  {}
func raceOn()                   {}
func raceAcq(p unsafe.Pointer)  {}
func raceRel(p unsafe.Pointer)  {}
func raceRelM(p unsafe.Pointer) {}

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return 0 }
