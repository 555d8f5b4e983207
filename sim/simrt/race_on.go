//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

//go:norace
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

func RaceErrors() int { return runtime.RaceErrors() }
