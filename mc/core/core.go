// Package core is a small stateless model checker: a scenario is a Go function
// that draws every nondeterministic decision from C.Choose, and Explore runs
// the function once for every sequence of decisions within the scenario's
// bounds. The function drives the real code; C.Fail reports a violated oracle.
package core

import (
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// abort is panicked to end one execution early.
type abort struct{}

// C is one execution.
type C struct {
	prefix []int32
	trace  []int32
	fan    []int32
	log    []string
	cur    string
	depth  int // steps
	x      *explorer
	viol   *Violation
	steps  int64
	pruned bool
	noLog  bool
}

// Violation is one failed oracle.
type Violation struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Key      string   `json:"key"`
	Msg      string   `json:"msg"`
	Log      []string `json:"log"`
	Trace    []int32  `json:"trace"`
	Repro    int      `json:"reproduced"`
}

// Choose returns a value in [0,n); every value is explored.
func (c *C) Choose(n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("Choose(%d)", n))
	}
	if n == 1 {
		return 0
	}
	i := len(c.trace)
	v := int32(0)
	if i < len(c.prefix) {
		v = c.prefix[i]
		if int(v) >= n {
			panic(fmt.Sprintf("mc: nondeterministic scenario: choice %d is %d of %d", i, v, n))
		}
	}
	c.trace = append(c.trace, v)
	c.fan = append(c.fan, int32(n))
	return int(v)
}

// Bool is Choose(2) == 1.
func (c *C) Bool() bool { return c.Choose(2) == 1 }

// Pick chooses one element.
func Pick[T any](c *C, xs ...T) T { return xs[c.Choose(len(xs))] }

// Logf records a line of the execution's history.
func (c *C) Logf(format string, a ...any) {
	if c.noLog {
		return
	}
	c.log = append(c.log, fmt.Sprintf(format, a...))
}

// Step counts one transition.
func (c *C) Step() { c.steps++ }

// History returns the log so far.
func (c *C) History() string { return strings.Join(c.log, "; ") }

// Fail ends the execution with a violation. key identifies the kind of
// failure (no spaces); it is what known-findings entries match on.
func (c *C) Fail(key, format string, a ...any) {
	if c.viol == nil {
		c.viol = &Violation{Key: strings.ReplaceAll(key, " ", "_"), Msg: fmt.Sprintf(format, a...)}
	}
	panic(abort{})
}

// FailPanic ends the execution with a panic caught on another goroutine.
func (c *C) FailPanic(r any, stack string) {
	c.Fail("panic:"+panicKey(r, stack), "panic: %v\n%s", r, stack)
}

// RaceReport is the latest report of the race detector.
func RaceReport() string {
	fs, _ := filepath.Glob(os.Getenv("MC_RACELOG") + ".*")
	for _, f := range fs {
		if b, err := os.ReadFile(f); err == nil {
			s := string(b)
			if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
				return s[i:]
			}
		}
	}
	return ""
}

// Prune ends the execution quietly: nothing below this point is explored.
func (c *C) Prune() {
	c.pruned = true
	panic(abort{})
}

// Visit declares the canonical state reached after the current number of
// steps, with left steps still to go. It returns false when the same state was
// already explored with at least as many steps left (the caller then returns).
func (c *C) Visit(state string, left int) bool {
	// Only the frontier of an execution is checked against the table; states on
	// the replayed prefix were visited by the execution that created the prefix.
	h := maphash.String(c.x.seed, state)
	if len(c.trace) < len(c.prefix) {
		return true
	}
	sh := &c.x.seen[h%uint64(len(c.x.seen))]
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if old, ok := sh.m[h]; ok && int(old) >= left {
		return false
	}
	if _, ok := sh.m[h]; !ok {
		c.x.states.Add(1)
	}
	sh.m[h] = int32(left)
	return true
}

// Outcome tallies a coarse description of what the execution observed, so a
// collapsed exploration (one outcome) is visible in the evidence.
func (c *C) Outcome(s string) {
	c.x.outMu.Lock()
	c.x.outcomes[s]++
	c.x.outMu.Unlock()
}

// Distinct counts distinct final observations (hash set).
func (c *C) Distinct(s string) {
	h := maphash.String(c.x.seed, s)
	c.x.outMu.Lock()
	c.x.distinct[h] = struct{}{}
	c.x.outMu.Unlock()
}

// Scenario is one bounded space.
type Scenario struct {
	Name  string
	Bound string // human description of the bounds
	Body  func(c *C)
	// Serial runs executions one at a time (they share process-global state).
	Serial bool
	// MaxExec caps the number of executions (0: none); hitting it makes the run
	// non-exhaustive.
	MaxExec int64
	// HangOK disables the non-termination watchdog.
	HangOK bool
}

// Result is what Explore covered.
type Result struct {
	Scenario   string           `json:"scenario"`
	Bound      string           `json:"bound"`
	Executions int64            `json:"executions"`
	Steps      int64            `json:"transitions"`
	States     int64            `json:"states"`
	Choices    int64            `json:"choice_points"`
	Pruned     int64            `json:"pruned"`
	MaxDepth   int              `json:"max_choices"`
	Exhaustive bool             `json:"exhaustive"`
	Outcomes   map[string]int64 `json:"outcomes,omitempty"`
	Distinct   int              `json:"distinct_observations"`
	WallS      float64          `json:"wall_s"`
	Samples    []string         `json:"-"`
	Violations []*Violation     `json:"-"`
}

type seenShard struct {
	mu sync.Mutex
	m  map[uint64]int32
}

type explorer struct {
	sc       Scenario
	seed     maphash.Seed
	seen     [64]seenShard
	states   atomic.Int64
	outMu    sync.Mutex
	outcomes map[string]int64
	distinct map[uint64]struct{}
	stack    []([]int32)
	mu       sync.Mutex
	cond     *sync.Cond
	busy     int
	stop     bool
	res      *Result
	viols    map[string]*Violation
}

// runOne executes the body once.
func (x *explorer) runOne(prefix []int32) (c *C) {
	c = &C{prefix: prefix, x: x}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if _, ok := r.(abort); ok {
				return
			}
			if c.viol == nil {
				st := string(debug.Stack())
				c.viol = &Violation{Key: "panic:" + panicKey(r, st), Msg: fmt.Sprintf("panic: %v\n%s", r, st)}
			}
		}()
		x.sc.Body(c)
	}()
	if c.viol == nil && len(c.trace) < len(c.prefix) && !c.pruned {
		c.viol = &Violation{Key: "mc-nondeterminism", Msg: "execution ended before its choice prefix was used up"}
	}
	return c
}

// panicKey is the first repo frame of a panic.
func panicKey(r any, st string) string {
	lines := strings.Split(st, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.Contains(l, "ngicks/go-fsys-helper/") && !strings.HasPrefix(l, "\t") {
			if i := strings.Index(l, "go-fsys-helper/"); i >= 0 {
				l = l[i+len("go-fsys-helper/"):]
			}
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.ReplaceAll(l, " ", "")
		}
	}
	s := fmt.Sprint(r)
	if len(s) > 60 {
		s = s[:60]
	}
	return strings.ReplaceAll(s, " ", "_")
}

// Replay runs one recorded trace.
func Replay(sc Scenario, trace []int32) *Violation {
	x := newExplorer(sc)
	c := x.runOne(trace)
	if c.viol != nil {
		c.viol.Log = c.log
		c.viol.Trace = c.trace
	}
	return c.viol
}

func newExplorer(sc Scenario) *explorer {
	x := &explorer{
		sc: sc, seed: maphash.MakeSeed(), outcomes: map[string]int64{}, distinct: map[uint64]struct{}{},
		viols: map[string]*Violation{}, res: &Result{Scenario: sc.Name, Bound: sc.Bound},
	}
	for i := range x.seen {
		x.seen[i].m = map[uint64]int32{}
	}
	x.cond = sync.NewCond(&x.mu)
	return x
}

// HangLimit is how long one execution may run before it is reported as not
// terminating. Executions take micro- to milliseconds; the limit only has to
// be far above what a loaded machine can turn those into.
var HangLimit = 90 * time.Second

// Explore runs every execution of sc until done or until deadline.
func Explore(sc Scenario, deadline time.Time, maxViol int) *Result {
	x := newExplorer(sc)
	t0 := time.Now()
	x.stack = [][]int32{nil}
	workers := runtime.GOMAXPROCS(0)
	if sc.Serial {
		workers = 1
	}
	type slot struct {
		mu    sync.Mutex
		since time.Time
		pfx   []int32
	}
	slots := make([]*slot, workers)
	var wg sync.WaitGroup
	timedOut := false
	done := make(chan struct{})
	for w := 0; w < workers; w++ {
		slots[w] = &slot{}
		wg.Add(1)
		go func(s *slot) {
			defer wg.Done()
			for {
				x.mu.Lock()
				for len(x.stack) == 0 && x.busy > 0 && !x.stop {
					x.cond.Wait()
				}
				if x.stop || (len(x.stack) == 0 && x.busy == 0) {
					x.mu.Unlock()
					x.cond.Broadcast()
					return
				}
				pfx := x.stack[len(x.stack)-1]
				x.stack = x.stack[:len(x.stack)-1]
				x.busy++
				x.mu.Unlock()

				s.mu.Lock()
				s.since, s.pfx = time.Now(), pfx
				s.mu.Unlock()
				c := x.runOne(pfx)
				s.mu.Lock()
				s.since = time.Time{}
				s.mu.Unlock()

				x.mu.Lock()
				x.busy--
				r := x.res
				r.Executions++
				r.Steps += c.steps
				r.Choices += int64(len(c.trace) - len(pfx))
				if len(pfx) > 0 {
					r.Choices++
				}
				if c.pruned {
					r.Pruned++
				}
				if len(c.trace) > r.MaxDepth {
					r.MaxDepth = len(c.trace)
				}
				if c.viol != nil {
					v := c.viol
					v.Log, v.Trace, v.Scenario = c.log, append([]int32(nil), c.trace...), sc.Name
					if old := x.viols[v.Key]; old == nil || len(v.Trace) < len(old.Trace) {
						x.viols[v.Key] = v
					}
					fresh := 0
					for k := range x.viols {
						if !knownKeys[k] {
							fresh++
						}
					}
					if fresh >= maxViol {
						x.stop = true
					}
				} else if len(r.Samples) < 3 || (r.Executions&(r.Executions-1) == 0 && len(r.Samples) < 12) {
					r.Samples = append(r.Samples, sc.Name+": "+strings.Join(c.log, "; "))
				}
				for i := len(c.trace) - 1; i >= len(pfx); i-- {
					for a := c.fan[i] - 1; a >= 1; a-- {
						np := make([]int32, i+1)
						copy(np, c.trace[:i])
						np[i] = a
						x.stack = append(x.stack, np)
					}
				}
				if time.Now().After(deadline) || (sc.MaxExec > 0 && r.Executions >= sc.MaxExec) {
					if len(x.stack) > 0 {
						timedOut = true
					}
					x.stop = true
				}
				x.mu.Unlock()
				x.cond.Broadcast()
			}
		}(slots[w])
	}
	go func() { wg.Wait(); close(done) }()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			for _, s := range slots {
				s.mu.Lock()
				since, pfx := s.since, s.pfx
				s.mu.Unlock()
				if !sc.HangOK && !since.IsZero() && time.Since(since) > HangLimit {
					x.mu.Lock()
					x.viols["hang"] = &Violation{
						Key: "hang", Scenario: sc.Name, Trace: pfx,
						Msg:   fmt.Sprintf("execution with choice prefix %v has not terminated after %v", pfx, HangLimit),
						Repro: -1,
					}
					x.stop = true
					x.mu.Unlock()
					break loop
				}
			}
			if time.Now().After(deadline.Add(20 * time.Second)) {
				// a worker is still inside an execution well past the deadline
				x.mu.Lock()
				x.stop, timedOut = true, true
				hung := false
				for _, s := range slots {
					s.mu.Lock()
					if !s.since.IsZero() && time.Since(s.since) > 15*time.Second {
						hung = true
					}
					s.mu.Unlock()
				}
				x.mu.Unlock()
				if !hung {
					break loop
				}
			}
		}
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	r := x.res
	r.States = x.states.Load()
	r.Exhaustive = !timedOut && !x.stop
	r.Outcomes = x.outcomes
	r.Distinct = len(x.distinct)
	r.WallS = time.Since(t0).Seconds()
	keys := make([]string, 0, len(x.viols))
	for k := range x.viols {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		r.Violations = append(r.Violations, x.viols[k])
	}
	if os.Getenv("MC_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "[%s] exec=%d steps=%d states=%d exhaustive=%v distinct=%d viol=%d wall=%.1fs outcomes=%v\n",
			sc.Name, r.Executions, r.Steps, r.States, r.Exhaustive, r.Distinct, len(keys), r.WallS, r.Outcomes)
	}
	return r
}

// Fresh reports whether the execution is past its replayed prefix: what lies
// on the prefix was checked by the execution that created it.
func (c *C) Fresh() bool { return len(c.trace) >= len(c.prefix) }
