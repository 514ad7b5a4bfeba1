package vsched

import "sync/atomic"

func getg() uintptr

// The table from goroutine to thread. Goroutines only ever look up their own
// entry, so open addressing over atomics is all it takes; there are at most a
// few dozen entries at a time.
const slots = 1 << 12

type slot struct {
	g atomic.Uintptr
	t atomic.Pointer[thread]
}

var table [slots]slot

func hash(g uintptr) uintptr { return (g >> 7) * 0x9E3779B1 % slots }

const tomb = 1

func register(g uintptr, t *thread) {
	raceOff()
	defer raceOn()
	for i := hash(g); ; i = (i + 1) % slots {
		v := table[i].g.Load()
		if (v == 0 || v == tomb) && table[i].g.CompareAndSwap(v, g) {
			table[i].t.Store(t)
			return
		}
	}
}

func unregister(g uintptr) {
	raceOff()
	defer raceOn()
	for i := hash(g); ; i = (i + 1) % slots {
		if table[i].g.Load() == g {
			table[i].t.Store(nil)
			table[i].g.Store(tomb)
			return
		}
	}
}

func current() *thread {
	g := getg()
	raceOff()
	defer raceOn()
	for i, n := hash(g), 0; n < slots; i, n = (i+1)%slots, n+1 {
		switch table[i].g.Load() {
		case g:
			return table[i].t.Load()
		case 0:
			return nil
		}
	}
	return nil
}
