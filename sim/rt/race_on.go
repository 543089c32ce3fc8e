//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the race detector is on.
const RaceBuild = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

func raceAcquire(p *int32)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func raceReleaseMerge(p *int32) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

// RaceAcquire, RaceRelease and RaceReleaseMerge give the simulated locks the
// happens-before edges of the real ones.
func RaceAcquire(p *int32)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func RaceRelease(p *int32)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func RaceReleaseMerge(p *int32) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

// RaceErrors is the number of races reported so far by this process.
func RaceErrors() int { return runtime.RaceErrors() }
