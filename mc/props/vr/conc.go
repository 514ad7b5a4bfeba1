package vr

import (
	"fmt"
	"io"
	"os"
	"strings"
	"sync"
	"syscall"

	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
	"verif.local/mc/vsched"
)

// Concurrent histories: threads of single calls run under the controlled
// scheduler, and what they observed has to be what some order of the calls,
// one at a time on the reference, gives.

// concProg is one program: what each thread calls.
type concProg [][]hop

func (p concProg) String() string {
	var ts []string
	for _, t := range p {
		var os []string
		for _, o := range t {
			os = append(os, o.String())
		}
		ts = append(ts, strings.Join(os, "; "))
	}
	return strings.Join(ts, " || ")
}

// concSys is one side: a file system and the handles opened on it.
type concSys struct {
	s     Sys
	files []vroot.File
	// do runs a path call where the reference is not simply the reference file
	// system; skip tells calls that are outside the property.
	do   func(o Op) string
	skip func(o Op) bool
	// opened is told about every handle opened and closed (slot, path or "").
	opened func(h int, name string)
	// check looks at the system under test once the threads are through.
	check func(c *core.C)
	done  func()
	// gone tells whether a handle's directory has been removed: such a handle
	// may refuse to list or change it.
	gone func(h int) bool
	// oldDirs: a directory handle may go on showing the mode it was opened on.
	oldDirs bool
}

// run makes one call. id tells the program's calls apart and is what they write.
func (x *concSys) run(o hop, id int) string {
	data := strings.Repeat(string(rune('A'+id)), max(o.n, 0))
	if o.path.Kind != "" {
		if x.do != nil {
			return x.do(o.path)
		}
		return apply(x.s, o.path, false)
	}
	if o.kind == "open" {
		f, err := x.s.OpenFile(o.path.A, o.flag, 0o644)
		if err != nil {
			return class(err, false)
		}
		x.files[o.h] = f
		if x.opened != nil {
			x.opened(o.h, o.path.A)
		}
		return "ok"
	}
	f := x.files[o.h]
	if f == nil {
		return "no handle"
	}
	if o.kind == "close" && x.opened != nil {
		x.opened(o.h, "")
	}
	r := fileResult(f, o, data)
	if x.gone != nil && x.gone(o.h) {
		r = goneMark + r
	}
	return r
}

const goneMark = "gone: "

// final is everything to be seen once the threads are through.
func (x *concSys) final() string {
	var b strings.Builder
	b.WriteString(dump(x.s, false))
	for i, f := range x.files {
		if f == nil {
			continue
		}
		fi, err := f.Stat()
		if err != nil {
			fmt.Fprintf(&b, "h%d: %s\n", i, class(err, false))
			continue
		}
		if fi.IsDir() && x.oldDirs {
			fmt.Fprintf(&b, "h%d: dir\n", i)
			continue
		}
		fmt.Fprintf(&b, "h%d: %s", i, describe(fi))
		if !fi.IsDir() {
			for _, o := range []hop{{kind: "readat", n: 12}, {kind: "seek", n: io.SeekCurrent}} {
				r := fileResult(f, o, "")
				if bad(r) {
					r = "fail"
				}
				fmt.Fprintf(&b, " %s", r)
			}
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// concOutcome is what one order of the calls gives.
type concOutcome struct {
	order []int // call ids
	res   []string
	final string
}

// concKit makes both sides.
type concKit struct {
	name     string
	sut, ref func() *concSys
	open     []hop
	nh       int
	oldDirs  bool
}

func (k concKit) start(x *concSys) *concSys {
	x.files, x.oldDirs = make([]vroot.File, k.nh), k.oldDirs
	for _, o := range k.open {
		if r := x.run(o, 0); r != "ok" {
			panic(fmt.Sprintf("%v: %s", o, r))
		}
	}
	return x
}

// outcomes runs p on the reference in every order; nil when some call is
// outside the property in some order.
func (k concKit) outcomes(p concProg) []concOutcome {
	var out []concOutcome
	pos := make([]int, len(p))
	ids := make([]int, len(p))
	n := 0
	for t := range p {
		ids[t] = n
		n += len(p[t])
	}
	var order []int
	ok := true
	var rec func()
	rec = func() {
		if len(order) == n {
			x := k.start(k.ref())
			o := concOutcome{order: append([]int(nil), order...), res: make([]string, n)}
			for _, id := range order {
				h := p.call(id)
				if h.path.Kind != "" && x.skip != nil && x.skip(h.path) {
					ok = false
					return
				}
				o.res[id] = x.run(h, id)
			}
			o.final = x.final()
			out = append(out, o)
			return
		}
		for t := range p {
			if pos[t] == len(p[t]) {
				continue
			}
			order = append(order, ids[t]+pos[t])
			pos[t]++
			rec()
			pos[t]--
			order = order[:len(order)-1]
		}
	}
	rec()
	if !ok {
		return nil
	}
	return out
}

func (p concProg) call(id int) hop {
	for _, t := range p {
		if id < len(t) {
			return t[id]
		}
		id -= len(t)
	}
	panic("no such call")
}

// agree compares results, leaving open which of several failures is named.
func (k concKit) agree(want, got string, o hop) bool {
	if w, ok := strings.CutPrefix(want, goneMark); ok {
		if bad(strings.TrimSpace(got)) {
			return true
		}
		want = w
	}
	if want == got || bad(want) && bad(got) {
		return true
	}
	switch o.kind {
	case "close":
		return got == "ok"
	case "stat":
		return k.oldDirs && o.path.Kind == "" && strings.HasPrefix(want, "dir ") && strings.HasPrefix(got, "dir ")
	case "names", "infos", "readdir":
		// A directory no longer there lists nothing, or says so.
		return bad(want) && strings.TrimSpace(strings.TrimSuffix(got, "ok")) == ""
	}
	if o.kind == "read" || o.kind == "readat" {
		// The end may come with the last bytes or after them.
		return got != `"" ok` && strings.TrimSuffix(got, " EOF") == strings.TrimSuffix(want, " ok")
	}
	return false
}

// concBody explores every schedule of every program.
func concBody(k concKit, progs []concProg, opt vsched.Options) func(c *core.C) {
	memo := make([]func() []concOutcome, len(progs))
	for i, p := range progs {
		memo[i] = sync.OnceValue(func() []concOutcome { return k.outcomes(p) })
	}
	return func(c *core.C) {
		i := c.Choose(len(progs))
		p := progs[i]
		want := memo[i]()
		if want == nil {
			c.Prune()
		}
		x := k.start(k.sut())
		if x.done != nil {
			defer x.done()
		}
		n := 0
		for _, t := range p {
			n += len(t)
		}
		res := make([]string, n)
		inv, ret := make([]int, n), make([]int, n)
		var threads []func()
		id := 0
		var trail []string
		for _, t := range p {
			first := id
			id += len(t)
			threads = append(threads, func() {
				for j, o := range t {
					inv[first+j] = vsched.Now()
					res[first+j] = x.run(o, first+j)
					ret[first+j] = vsched.Now()
				}
			})
		}
		races := vsched.RaceErrors()
		out := vsched.Run(c.Choose, opt, threads...)
		for i := range n {
			trail = append(trail, fmt.Sprintf("[%d,%d] %v: %s", inv[i], ret[i], p.call(i), res[i]))
		}
		c.Step()
		c.Logf("%v: %s", p, strings.Join(trail, "; "))
		switch {
		case out.Panic != nil:
			c.FailPanic(out.Panic, out.Stack)
		case out.Deadlock != "":
			c.Fail("deadlock:"+p.String(), "%v on %s: no thread can go on: %s", p, k.name, out.Deadlock)
		case out.Endless:
			c.Fail("endless:"+p.String(), "%v on %s does not come to an end within %d steps", p, k.name, opt.MaxPoints)
		}
		if vsched.RaceErrors() > races {
			c.Fail("race:"+p.String(), "%v on %s: the calls access the same memory with nothing ordering the accesses\n%s", p, k.name, core.RaceReport())
		}
		final := x.final()
		for _, f := range x.files {
			if f != nil {
				_ = f.Close()
			}
		}
		if x.check != nil {
			x.check(c)
		}
		c.Outcome(fmt.Sprintf("%d switches", out.Switches))
		c.Distinct(p.String() + strings.Join(res, "|") + final)
		var why []string
	orders:
		for _, w := range want {
			at := make([]int, n)
			for i, id := range w.order {
				at[id] = i
			}
			for a := range n {
				for b := range n {
					if ret[a] < inv[b] && at[a] > at[b] {
						continue orders
					}
				}
			}
			diff := ""
			for id := range n {
				if !k.agree(w.res[id], res[id], p.call(id)) {
					diff = fmt.Sprintf("%v gives %q", p.call(id), w.res[id])
					break
				}
			}
			if diff == "" && w.final != final {
				diff = "it ends as\n" + w.final
			}
			if diff == "" {
				return
			}
			why = append(why, fmt.Sprintf("in order %v %s", w.order, diff))
		}
		c.Fail("order:"+p.String(), "%s: no order of the calls explains what they returned and left behind\n%s\nends as\n%s\n%s",
			k.name, strings.Join(trail, "\n"), final, strings.Join(why, "\n"))
	}
}

// apart leaves out the programs that depend on whether two names of one file
// share metadata, and those in which a call follows the close of its handle.
func apart(ps []concProg) (out []concProg) {
	for _, p := range ps {
		link, chmod, closed := false, false, 0
		for _, t := range p {
			for i, o := range t {
				link = link || o.path.Kind == "link"
				chmod = chmod || o.path.Kind == "chmod" || o.kind == "chmod"
				if o.kind == "close" {
					closed++
					if i+1 < len(t) {
						closed++
					}
				}
			}
		}
		if link && chmod || closed > 1 {
			continue
		}
		out = append(out, p)
	}
	return out
}

// pairs is every unordered pair of calls, each on a thread of its own.
func pairs(ops []hop) (out []concProg) {
	for i, a := range ops {
		for _, b := range ops[i:] {
			out = append(out, concProg{{a}, {b}})
		}
	}
	return out
}

// twoOne is every program of two calls against one.
func twoOne(first, second, other []hop) (out []concProg) {
	for _, a := range first {
		for _, b := range second {
			for _, o := range other {
				out = append(out, concProg{{a, b}, {o}})
			}
		}
	}
	return out
}

// triples is every unordered triple, each on a thread of its own.
func triples(ops []hop) (out []concProg) {
	for i, a := range ops {
		for j, b := range ops[i:] {
			for _, d := range ops[i+j:] {
				out = append(out, concProg{{a}, {b}, {d}})
			}
		}
	}
	return out
}

func pathHop(kind, a string, rest ...string) hop {
	o := Op{Kind: kind, A: a}
	if len(rest) > 0 {
		o.B = rest[0]
	}
	switch kind {
	case "mkdir", "mkdirall":
		o.Mode = 0o755
	case "chmod":
		o.Mode = 0o700
	}
	return hop{path: o}
}

var synthConcSeed = []string{"f=abcd", "d/", "d/x=1", "l->d"}

var synthConc = concKit{
	name: "synthfs",
	sut: func() *concSys {
		s, done := kitSynth.mk()
		seed(s, synthConcSeed)
		return &concSys{s: s, done: done}
	},
	ref: func() *concSys {
		ref := reffs.New()
		seed(ref, synthConcSeed)
		return &concSys{s: ofRef(ref), skip: func(o Op) bool { return synthSkip(ref, o) }}
	},
	open: []hop{
		{h: 0, kind: "open", path: Op{A: "f"}, flag: os.O_RDWR},
		{h: 1, kind: "open", path: Op{A: "f"}, flag: os.O_RDWR | os.O_APPEND},
		{h: 2, kind: "open", path: Op{A: "f"}, flag: os.O_WRONLY | os.O_APPEND},
		{h: 3, kind: "open", path: Op{A: "d"}},
	},
	nh: 6,
}

func concHandleOps() []hop {
	return []hop{
		{h: 0, kind: "read", n: 2}, {h: 0, kind: "write", n: 2}, {h: 0, kind: "seek", off: 1, n: io.SeekCurrent}, {h: 0, kind: "seek", off: 0, n: io.SeekEnd},
		{h: 0, kind: "readat", n: 9, off: 0}, {h: 0, kind: "writeat", n: 2, off: 3}, {h: 0, kind: "writeat", n: 3, off: 0}, {h: 0, kind: "truncate", off: 1}, {h: 0, kind: "truncate", off: 6},
		{h: 0, kind: "stat"}, {h: 0, kind: "chmod"}, {h: 0, kind: "close"},
		{h: 1, kind: "write", n: 2}, {h: 2, kind: "write", n: 1}, {h: 1, kind: "read", n: 3},
		{h: 3, kind: "names", n: -1}, {h: 3, kind: "infos"}, {h: 3, kind: "stat"},
	}
}

func concPathOps() []hop {
	return []hop{
		pathHop("mkdir", "n"), pathHop("mkdir", "d/n"), pathHop("mkdirall", "n/m"), pathHop("mkdirall", "d/n/m"),
		pathHop("remove", "f"), pathHop("remove", "d"), pathHop("remove", "d/x"), pathHop("removeall", "d"), pathHop("removeall", "n"),
		pathHop("rename", "f", "n"), pathHop("rename", "d", "n"), pathHop("rename", "n", "d"), pathHop("rename", "f", "d/x"), pathHop("rename", "d/x", "n"), pathHop("rename", "d/x", "d/n"), pathHop("rename", "d", "d/x"),
		pathHop("link", "f", "n"), pathHop("link", "d/x", "n"), pathHop("link", "f", "d/n"), pathHop("symlink", "n", "f"), pathHop("symlink", "d/n", "x"),
		pathHop("chmod", "f"), pathHop("chmod", "d"), pathHop("chmod", "d/x"),
		pathHop("stat", "f"), pathHop("stat", "n"), pathHop("stat", "d/x"), pathHop("lstat", "n"), pathHop("readlink", "n"), pathHop("stat", "l/x"),
		{h: 4, kind: "open", path: Op{A: "n"}, flag: os.O_RDWR | os.O_CREATE | os.O_EXCL}, {h: 4, kind: "open", path: Op{A: "n"}, flag: os.O_RDWR | os.O_CREATE},
		{h: 4, kind: "open", path: Op{A: "f"}, flag: os.O_RDWR | os.O_TRUNC}, {h: 4, kind: "open", path: Op{A: "d/x"}}, {h: 4, kind: "open", path: Op{A: "d"}},
	}
}

func onSlot(h int, ops []hop) (out []hop) {
	for _, o := range ops {
		if o.kind == "open" {
			o.h = h
		}
		out = append(out, o)
	}
	return out
}

// pathPairs is every unordered pair, the second opening into another slot.
func pathPairs(ops []hop) (out []concProg) {
	for i, a := range ops {
		for _, b := range onSlot(5, ops[i:]) {
			out = append(out, concProg{{a}, {b}})
		}
	}
	return out
}

// crossed is every pair of a call from each list.
func crossed(a, b []hop) (out []concProg) {
	for _, x := range a {
		for _, y := range b {
			out = append(out, concProg{{x}, {y}})
		}
	}
	return out
}

func init() {
	core.Register(&core.Property{
		ID:   "V07",
		Init: func() error { syscall.Umask(0); return nil },
		Rule: "for every schedule within the bound, no two accesses to the same memory are unordered (the Go race detector judges each schedule by the code's own locks and atomics), and the calls' results and the final state are those of one of the calls' sequential orders on the reference that respects which call returned before which began; no schedule deadlocks or panics",
		Assumptions: []string{
			"sequentially consistent memory; scheduling points at every lock operation, atomic operation and statement that reaches memory through a pointer, field, index or slice",
			"calls on a handle in flight while it is closed are only run against that close",
		},
		Scenarios: func(th bool) (out []core.Scenario) {
			add := func(name string, progs []concProg, preempt int, stmts bool) {
				what := "locks and atomics"
				if stmts {
					what = "statements, locks and atomics"
				}
				out = append(out, core.Scenario{
					Name:  name,
					Bound: fmt.Sprintf("%d programs, every schedule with at most %d preemptions at %s", len(progs), preempt, what),
					Body:  concBody(synthConc, apart(progs), vsched.Options{Preempt: preempt, Stmts: stmts, MaxPoints: 20000}),
				})
			}
			hs, ps := concHandleOps(), concPathOps()
			pb := 2
			if th {
				pb = 3
			}
			add("pairs of handle calls", pairs(hs), pb, true)
			add("pairs of path calls", pathPairs(ps), pb, true)
			add("path against handle calls", crossed(ps, hs), pb, true)
			small := []hop{hs[0], hs[1], hs[7], hs[12], hs[13], hs[4]}
			add("two handle calls against one", twoOne(small, small, small), pb, false)
			add("three handle calls", triples(small), 3, false)
			return out
		},
	})
}
