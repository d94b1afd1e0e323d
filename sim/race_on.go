//go:build race

package main

import (
	"runtime"
	"unsafe"
)

const raceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

var raceEnds int64

// raceEnd and raceJoin order everything a finished task did before whatever
// the next run does, and nothing within a run.
func raceEnd()  { runtime.RaceReleaseMerge(unsafe.Pointer(&raceEnds)) }
func raceJoin() { runtime.RaceAcquire(unsafe.Pointer(&raceEnds)) }

// raceRead and raceWrite tell the race detector about accesses of the
// simulated components, which are not instrumented.
func raceRead(p unsafe.Pointer, n int) {
	if n > 0 {
		runtime.RaceReadRange(p, n)
	}
}

func raceWrite(p unsafe.Pointer, n int) {
	if n > 0 {
		runtime.RaceWriteRange(p, n)
	}
}
