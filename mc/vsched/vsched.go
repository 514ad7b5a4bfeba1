// Package vsched is the controlled scheduler behind the concurrency checks.
//
// Run executes a set of threads so that exactly one runs at any moment, and
// asks a chooser which one continues at every scheduling point. The points are
// the ones cmd/instr puts into a copy of the sources under test: every
// operation on a lock or an atomic, and every statement that can touch memory
// another thread sees. Goroutines that belong to no Run pass through all of
// this untouched, so the same instrumented code serves set-up and inspection.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
)

// Chooser returns a value in [0,n).
type Chooser func(n int) int

// Options bounds a Run.
type Options struct {
	// Preempt is how often a thread that could have gone on is set aside.
	Preempt int
	// Stmts makes statements scheduling points, not only lock and atomic operations.
	Stmts bool
	// Whole names a package whose calls are one step, with what they call back:
	// its own locks are not the scheduler's to see.
	Whole string
	// MaxPoints ends an execution that does not come to an end.
	MaxPoints int
}

// Outcome is how a Run ended.
type Outcome struct {
	// Panic is set when a thread panicked.
	Panic any
	Stack string
	// Deadlock describes a state in which no thread could go on.
	Deadlock string
	// Endless is set when MaxPoints was used up.
	Endless  bool
	Points   int
	Switches int
}

type thread struct {
	s     *sched
	name  string
	wake  chan struct{}
	ready func() bool // nil: can run
	what  string      // what it is waiting for
	done  bool
}

type sched struct {
	choose  Chooser
	opt     Options
	threads []*thread
	preempt int
	clock   int
	dead    bool
	fin     chan struct{}
	out     Outcome
	live    int
	pools   map[any][]any
}

// dying is panicked through the threads left over when an execution is given up.
type dying struct{}

func (s *sched) add(name string, f func()) *thread {
	t := &thread{s: s, name: name, wake: make(chan struct{}, 1)}
	s.threads = append(s.threads, t)
	s.live++
	start := func() {
		g := getg()
		register(g, t)
		raceOff()
		<-t.wake
		raceOn()
		defer func() {
			r := recover()
			if _, ok := r.(dying); r != nil && !ok && !s.dead {
				s.out.Panic, s.out.Stack = r, string(debug.Stack())
				s.dead = true
			}
			t.done = true
			s.live--
			raceRelease(s)
			unregister(g)
			raceOff()
			if s.live == 0 {
				s.fin <- struct{}{}
			} else {
				s.next(t)
			}
			raceOn()
		}()
		if s.dead {
			return
		}
		f()
	}
	go start()
	return t
}

// next hands the processor on; t is the thread giving it up. It returns at once
// when t itself goes on.
func (s *sched) next(t *thread) {
	if s.dead {
		for _, o := range s.threads {
			if !o.done && o != t {
				o.wake <- struct{}{}
				if !t.done {
					<-t.wake
				}
				return
			}
		}
		return
	}
	var can []*thread
	self := false
	if !t.done && (t.ready == nil || t.ready()) {
		can = append(can, t)
		self = true
	}
	for _, o := range s.threads {
		if o != t && !o.done && (o.ready == nil || o.ready()) {
			can = append(can, o)
		}
	}
	if len(can) == 0 {
		s.dead = true
		for _, o := range s.threads {
			if !o.done {
				// Not fmt: its pools would be used without the race detector seeing it.
				s.out.Deadlock += o.name + " waits for " + o.what + "; "
			}
		}
		s.next(t)
		return
	}
	i := 0
	if self && s.preempt >= s.opt.Preempt {
		// no preemption left: go on
	} else {
		i = s.choose(len(can))
		if self && i > 0 {
			s.preempt++
		}
	}
	n := can[i]
	if n == t {
		return
	}
	s.out.Switches++
	n.wake <- struct{}{}
	if !t.done {
		<-t.wake
	}
}

func (t *thread) point() {
	s := t.s
	if s.dead {
		panic(dying{})
	}
	s.out.Points++
	s.clock++
	if s.opt.MaxPoints > 0 && s.out.Points > s.opt.MaxPoints {
		s.out.Endless = true
		s.dead = true
		panic(dying{})
	}
	if s.live > 1 {
		raceOff()
		s.next(t)
		raceOn()
	}
	if s.dead {
		panic(dying{})
	}
}

// Point is a scheduling point ahead of a statement.
func Point() {
	if t := current(); t != nil && t.s.opt.Stmts && !t.s.inside() {
		t.point()
	}
}

// SyncPoint is a scheduling point ahead of an operation on a lock or an atomic.
func SyncPoint() {
	if t := current(); t != nil && !t.s.inside() {
		t.point()
	}
}

// Dying reports whether the execution is being given up, in which case locks
// are no longer kept.
func Dying() bool {
	t := current()
	return t != nil && t.s.dead
}

// Block waits until ready holds. Outside a Run ready must hold already.
func Block(what string, ready func() bool) {
	if ready() {
		return
	}
	t := current()
	if t == nil {
		panic("vsched: a goroutine outside any run would wait forever for " + what)
	}
	if t.s.dead {
		panic(dying{})
	}
	t.ready, t.what = ready, what
	raceOff()
	t.s.next(t)
	raceOn()
	t.ready = nil
	if t.s.dead {
		panic(dying{})
	}
}

// Go starts a thread of the current run, or a plain goroutine outside any.
func Go(f func()) {
	t := current()
	if t == nil {
		go f()
		return
	}
	raceRelease(t.s)
	s := t.s
	s.add(fmt.Sprintf("%s.%d", t.name, len(s.threads)), func() { raceAcquire(s); f() })
	t.point()
}

// Now is the current run's logical time: it grows with every point passed.
func Now() int {
	if t := current(); t != nil {
		t.s.clock++
		return t.s.clock
	}
	return 0
}

// PoolGet takes the object put last under key, if any.
func PoolGet(key any) (any, bool) {
	t := current()
	if t == nil {
		return nil, false
	}
	l := t.s.pools[key]
	if len(l) == 0 {
		return nil, false
	}
	v := l[len(l)-1]
	t.s.pools[key] = l[:len(l)-1]
	raceAcquire(t.s)
	return v, true
}

// PoolPut keeps an object under key for the rest of the run.
func PoolPut(key, v any) {
	if t := current(); t != nil {
		raceRelease(t.s)
		t.s.pools[key] = append(t.s.pools[key], v)
	}
}

// Run executes the threads to their end.
func Run(choose Chooser, opt Options, threads ...func()) Outcome {
	if current() != nil {
		panic("vsched: nested run")
	}
	s := &sched{choose: choose, opt: opt, fin: make(chan struct{}, 1), pools: map[any][]any{}}
	for i, f := range threads {
		s.add(fmt.Sprintf("t%d", i+1), f)
	}
	if s.live == 0 {
		return s.out
	}
	raceOff()
	i := choose(len(s.threads))
	s.threads[i].wake <- struct{}{}
	<-s.fin
	raceOn()
	raceAcquire(s)
	return s.out
}

// Self is the running thread's index within its run, in starting order, or -1.
func Self() int {
	t := current()
	if t == nil {
		return -1
	}
	for i, o := range t.s.threads {
		if o == t {
			return i
		}
	}
	return -1
}

// inside tells whether a function of the package that counts as one step is
// waiting for the caller.
func (s *sched) inside() bool {
	if s.opt.Whole == "" {
		return false
	}
	var pcs [48]uintptr
	fr := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs[:])])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, s.opt.Whole) {
			return true
		}
		if !more {
			return false
		}
	}
}
