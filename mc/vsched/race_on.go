//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// RaceEnabled says the build carries the race detector. The scheduler's own
// hand-overs are hidden from it, so it judges the threads by the order the
// code's own locks and atomics establish.
const RaceEnabled = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

func raceAcquire(s *sched) { runtime.RaceAcquire(unsafe.Pointer(s)) }
func raceRelease(s *sched) { runtime.RaceReleaseMerge(unsafe.Pointer(s)) }

func RaceAcquire(p *byte)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func RaceRelease(p *byte)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func RaceReleaseMerge(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

func RaceErrors() int { return runtime.RaceErrors() }
