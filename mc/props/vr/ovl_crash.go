package vr

import (
	"fmt"
	"io/fs"
	"os"
	"path"
	"strings"
	"syscall"

	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// entry is what a path shows: kind, permissions, content.
func entries(s Sys) map[string]string {
	out := map[string]string{}
	var walk func(p string)
	walk = func(p string) {
		fi, err := s.Lstat(p)
		if err != nil {
			out[p] = "lstat " + class(err, false)
			return
		}
		switch {
		case fi.IsDir():
			out[p] = describe(fi)
			f, err := s.Open(p)
			if err != nil {
				out[p] += " open " + class(err, false)
				return
			}
			es, err := f.ReadDir(-1)
			_ = f.Close()
			if err != nil {
				out[p] += " readdir " + class(err, false)
			}
			for _, e := range es {
				walk(path.Join(p, e.Name()))
			}
		case fi.Mode()&fs.ModeSymlink != 0:
			t, err := s.ReadLink(p)
			out[p] = "link " + t + " " + class(err, false)
		default:
			out[p] = describe(fi) + " " + apply(s, Op{Kind: "read", A: p}, false)
		}
	}
	walk(".")
	return out
}

// between tells what is wrong with the view v of an operation cut short: every
// path must show what it showed before or shows after it, and what the
// operation leaves alone must be there.
func between(before, after, v map[string]string, writes bool) string {
	var bad []string
	for p, e := range v {
		b, inB := before[p]
		a, inA := after[p]
		switch {
		case e == b && inB, e == a && inA:
		case !inB && !inA:
			bad = append(bad, fmt.Sprintf("%s (%s) was not there before and would not be after", p, e))
		case inA && (a != b || writes) && strings.HasPrefix(a, "file") && strings.HasPrefix(e, "file") && strings.HasSuffix(e, " read "):
			// Created or truncated, not yet written.
		default:
			bad = append(bad, fmt.Sprintf("%s shows %q, before %q, after %q", p, e, b, a))
		}
	}
	for p := range before {
		if _, ok := after[p]; !ok {
			continue
		}
		if _, ok := v[p]; !ok {
			bad = append(bad, p+" is gone")
		}
	}
	return strings.Join(bad, "\n")
}

// cutShort runs one operation with one interruption: an error from any call on
// any layer or on the store, or a crash right after any of them.
func cutShort(spec ovlSpec, prefix, ops []Op, depth int, then []Op) func(c *core.C) {
	return func(c *core.C) {
		r := newOvlRun(c, spec)
		c.Logf("%s", r.name)
		for i := 0; i < depth; i++ {
			k := c.Choose(len(prefix) + 1)
			if k == 0 {
				break
			}
			o := prefix[k-1]
			if r.skip(cleaned(r.s, o)) {
				c.Prune()
			}
			r.step(o)
		}
		o := ops[c.Choose(len(ops))]
		if r.skip(cleaned(r.s, o)) {
			c.Prune()
		}
		writes := o.Kind == "create" || o.Flag&os.O_TRUNC != 0
		before := entries(ofRef(r.ref))
		fired, site := "", 0
		var crashed stack
		at := func(what string, can int) int {
			if fired != "" {
				return 0
			}
			site++
			k := c.Choose(can)
			if k > 0 {
				fired = fmt.Sprintf("%s at call %d (%s)", []string{"", "error", "crash"}[k], site, what)
				if k == 2 {
					crashed = r.st.clone()
				}
			}
			return k
		}
		for i, l := range r.st {
			// Reading cannot crash into anything new.
			l.fs.Before = func(op reffs.Op) (int, error) {
				if strings.HasSuffix(op.Name, "close") {
					return 0, nil
				}
				if at(fmt.Sprintf("layer %d %s %s", i, op.Name, op.Path), 2) == 1 {
					return 0, syscall.EIO
				}
				return 0, nil
			}
			l.fs.After = func(op reffs.Op) error {
				if changes(op) {
					if at(fmt.Sprintf("layer %d after %s %s", i, op.Name, op.Path), 3) == 1 {
						c.Prune()
					}
				}
				return nil
			}
		}
		r.st[0].store.hook = func(op string, after bool) error {
			if after {
				if at("after "+op, 3) == 1 {
					// A call that reports an error has no effect.
					c.Prune()
				}
				return nil
			}
			if at(op, 2) == 1 {
				return syscall.EIO
			}
			return nil
		}
		got := apply(r.s, o, false)
		for _, l := range r.st {
			l.fs.Before, l.fs.After = nil, nil
		}
		r.st[0].store.hook = nil
		if fired == "" {
			c.Prune()
		}
		c.Step()
		was := r.ref.Clone()
		want := r.want(cleaned(r.s, o))
		after := entries(ofRef(r.ref))
		c.Logf("%v with %s: %s", o, fired, got)
		fail := func(key, format string, a ...any) {
			c.Fail(key+":"+o.Kind, "%v over %s, %s, result %s: %s\nhistory: %s\nbefore:\n%s\nstack now:\n%s", o, r.name, fired, got, fmt.Sprintf(format, a...), c.History(), was.Dump(), r.st)
		}
		if failed(want) {
			after = before
		}
		st := r.st
		if crashed != nil {
			st = crashed
		} else {
			live := entries(r.s)
			if bad := between(before, after, live, writes); bad != "" {
				fail("live", "%s", bad)
			}
			if !failed(got) && !failed(want) {
				// Success means success.
				if l, w := fmt.Sprint(live), fmt.Sprint(after); l != w && !strings.Contains(got, "fail") {
					fail("success", "reported as done, the view is\n%s\nand not\n%s", l, w)
				}
			}
			for p, e := range live {
				if got := apply(r.s, Op{Kind: "lstat", A: p}, false); failed(got) {
					fail("lookup", "%s is listed as %s, lookup gives %s", p, e, got)
				}
			}
			if n := open(st); n != 0 {
				fail("handles", "%d handles left open", n)
			}
		}
		if l := st.lowers(); l != r.lowers {
			fail("lower", "the lower layers changed to\n%s", l)
		}
		// Everything is kept that was written; the next mount must make sense of it.
		s := st.sys(nil)
		if n := len(st[0].fs.Root.Kids["work"].Kids); n != 0 {
			fail("work", "%d files in work/ after mounting", n)
		}
		v := entries(s)
		if bad := between(before, after, v, writes); bad != "" {
			fail("remount", "after mounting again %s", bad)
		}
		if crashed == nil {
			if l, m := fmt.Sprint(entries(r.s)), fmt.Sprint(v); l != m {
				fail("drift", "the mounted overlay shows\n%s\na new one\n%s", l, m)
			}
		}
		if o.Kind == "rename" && !failed(want) && path.Clean(o.A) != path.Clean(o.B) {
			src := before[path.Clean(o.A)]
			if v[path.Clean(o.A)] != src && v[path.Clean(o.B)] != src && !strings.HasPrefix(o.A, "l/") && !strings.HasPrefix(o.B, "l/") {
				fail("lost", "%s is at neither name", src)
			}
		}
		if u := union(st); dump(ofRef(u), false) != dump(s, false) {
			fail("view", "the view is\n%s\nthe layers add up to\n%s", dump(s, false), dump(ofRef(u), false))
		}
		if len(then) == 0 || !c.Visit("then:"+spec.name+st.String(), 1) {
			return
		}
		// Life goes on.
		n := &ovlRun{c: c, name: r.name + " after " + fired, st: st, s: s, ref: union(st), lowers: r.lowers, pure: map[*reffs.Node]bool{}}
		n.markPure()
		o2 := then[c.Choose(len(then))]
		if n.skip(cleaned(n.s, o2)) {
			c.Prune()
		}
		n.step(o2)
	}
}

// changes tells whether a call that took effect may have changed the layer.
func changes(op reffs.Op) bool {
	switch strings.TrimPrefix(op.Name, "f.") {
	case "stat", "lstat", "read", "readat", "readdir", "readlink", "close", "seek", "openroot":
		return false
	case "open":
		return op.Flag&^3 != 0
	}
	return true
}

// essential is the part of the alphabet that records or lifts marks.
func essential() []Op {
	return []Op{
		{Kind: "mkdir", A: "a", Mode: 0o755}, {Kind: "mkdir", A: "a/d", Mode: 0o755}, {Kind: "mkdir", A: "b", Mode: 0o755},
		{Kind: "create", A: "a/x", Data: "1"}, {Kind: "create", A: "a/d/y", Data: "1"}, {Kind: "create", A: "b", Data: "1"},
		{Kind: "remove", A: "a/x"}, {Kind: "remove", A: "a/d/y"}, {Kind: "remove", A: "b"}, {Kind: "remove", A: "l"},
		{Kind: "removeall", A: "a"}, {Kind: "removeall", A: "a/d"}, {Kind: "removeall", A: "b"},
		{Kind: "rename", A: "a/x", B: "b"}, {Kind: "rename", A: "b", B: "a/x"}, {Kind: "rename", A: "a", B: "b"}, {Kind: "rename", A: "a/d", B: "b"}, {Kind: "rename", A: "b", B: "a/d"},
		{Kind: "chmod", A: "a/d", Mode: 0o711}, {Kind: "symlink", A: "a/x", B: "../b"},
	}
}

func init() {
	core.Register(&core.Property{
		ID: "O04", Unpriv: true,
		Rule: "for every operation after every prefix, and every single failing call (layer, store) or crash right after one: each path shows what it showed before or would after the operation, nothing hidden comes back, nothing else is lost, lower layers are untouched, the mounted overlay and a new one agree, and the next operation behaves as on one file system",
		Assumptions: []string{
			"a crash loses nothing that was written (process crash); one failure per execution",
			"layers are reference file systems; a call that fails has no effect (a failing write none of its bytes)",
		},
		Scenarios: func(th bool) []core.Scenario {
			ops := ovlOps()
			var out []core.Scenario
			d := 1
			if th {
				d = 2
			}
			for _, sp := range ovlStacks {
				out = append(out, core.Scenario{Name: "one operation: " + sp.name, Bound: fmt.Sprintf("up to %d operations out of %d first, then each of %d with every single interruption, then each of %d", d, len(essential()), len(ops), len(essential())), Body: cutShort(sp, essential(), ops, d, essential())})
			}
			return out
		},
	})
}
