//go:build !race

package vsched

const RaceEnabled = false

func raceOff()             {}
func raceOn()              {}
func raceAcquire(s *sched) {}
func raceRelease(s *sched) {}

// RaceAcquire and RaceRelease tell the race detector what a lock orders.
func RaceAcquire(p *byte)      {}
func RaceRelease(p *byte)      {}
func RaceReleaseMerge(p *byte) {}

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return 0 }
