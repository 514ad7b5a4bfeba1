// Package vsync stands in for sync in instrumented sources.
package vsync

import (
	"sync"

	"verif.local/mc/vsched"
)

type (
	// Locker is sync.Locker.
	Locker = sync.Locker
	// Map is sync.Map: its operations are atomic steps.
	Map = sync.Map
)

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	w      byte
}

func (m *Mutex) Lock() {
	vsched.SyncPoint()
	vsched.Block("a mutex", func() bool { return !m.locked })
	m.locked = true
	vsched.RaceAcquire(&m.w)
}

func (m *Mutex) TryLock() bool {
	vsched.SyncPoint()
	if m.locked {
		return false
	}
	m.locked = true
	vsched.RaceAcquire(&m.w)
	return true
}

func (m *Mutex) Unlock() {
	if vsched.Dying() {
		m.locked = false
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	vsched.RaceRelease(&m.w)
	m.locked = false
}

// RWMutex is sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	readers int
	writer  bool
	waiting int
	w, r    byte
}

func (m *RWMutex) Lock() {
	vsched.SyncPoint()
	m.waiting++
	defer func() { m.waiting-- }()
	vsched.Block("a write lock", func() bool { return !m.writer && m.readers == 0 })
	m.writer = true
	vsched.RaceAcquire(&m.w)
	vsched.RaceAcquire(&m.r)
}

func (m *RWMutex) TryLock() bool {
	vsched.SyncPoint()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vsched.RaceAcquire(&m.w)
	vsched.RaceAcquire(&m.r)
	return true
}

func (m *RWMutex) Unlock() {
	if vsched.Dying() {
		m.writer = false
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	vsched.RaceRelease(&m.w)
	m.writer = false
}

func (m *RWMutex) RLock() {
	vsched.SyncPoint()
	vsched.Block("a read lock", func() bool { return !m.writer && m.waiting == 0 })
	m.readers++
	vsched.RaceAcquire(&m.w)
}

func (m *RWMutex) TryRLock() bool {
	vsched.SyncPoint()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	vsched.RaceAcquire(&m.w)
	return true
}

func (m *RWMutex) RUnlock() {
	if vsched.Dying() {
		m.readers--
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vsched.RaceReleaseMerge(&m.r)
	m.readers--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	w byte
}

func (g *WaitGroup) Add(d int) {
	vsched.SyncPoint()
	if d < 0 {
		vsched.RaceReleaseMerge(&g.w)
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	vsched.SyncPoint()
	vsched.Block("a wait group", func() bool { return g.n == 0 })
	vsched.RaceAcquire(&g.w)
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vsched.Go(func() {
		defer g.Done()
		f()
	})
}

// Cond is sync.Cond.
type Cond struct {
	L    Locker
	wait []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(bool)
	c.wait = append(c.wait, woken)
	c.L.Unlock()
	vsched.SyncPoint()
	vsched.Block("a condition", func() bool { return *woken })
	c.L.Lock()
}

func (c *Cond) Signal() {
	vsched.SyncPoint()
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
}

func (c *Cond) Broadcast() {
	vsched.SyncPoint()
	for _, w := range c.wait {
		*w = true
	}
	c.wait = nil
}

// Pool is sync.Pool, kept per run: what a thread puts back is what the next
// Get of the same run returns, so an object used after Put is seen as such.
type Pool struct {
	New func() any
}

func (p *Pool) Get() any {
	vsched.SyncPoint()
	if v, ok := vsched.PoolGet(p); ok {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	vsched.SyncPoint()
	vsched.PoolPut(p, x)
}
