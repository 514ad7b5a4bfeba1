package vr

import (
	"fmt"
	"os"
	"syscall"

	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
	"verif.local/mc/vsched"
)

// O06: an overlay used by several goroutines.

func ovlConc(spec ovlSpec, gate bool) concKit {
	k := concKit{
		name: "overlayfs over " + spec.name,
		sut: func() *concSys {
			st := spec.build()
			lowers := st.lowers()
			o, err := st.mount(&overlayfs.Option{DisableOpenFileRemoval: gate})
			if err != nil {
				panic(err)
			}
			x := &concSys{s: ofOverlay(o)}
			x.check = func(c *core.C) {
				if l := st.lowers(); l != lowers {
					c.Fail("lower", "the calls changed a lower layer\n%s\nto\n%s\nhistory: %s", lowers, l, c.History())
				}
				if n := len(st[0].fs.Root.Kids["work"].Kids); n != 0 {
					c.Fail("work", "the calls leave %d files in work/\nhistory: %s", n, c.History())
				}
				if n := open(st); n != 0 {
					c.Fail("handles", "%d handles stay open in the layers\nhistory: %s", n, c.History())
				}
				w, g := dump(x.s, false), dump(st.clone().sys(nil), false)
				if w != g {
					c.Fail("remount", "opened again the stack shows\n%s\nit was left as\n%s\nhistory: %s", g, w, c.History())
				}
			}
			return x
		},
		ref: func() *concSys {
			r := newOvlRun(nil, spec)
			x := &concSys{s: ofRef(r.ref), skip: r.skip}
			held := map[int]*reffs.Node{}
			x.opened = func(h int, name string) {
				delete(held, h)
				if name != "" {
					held[h] = reffs.Lookup(r.ref, name, true)
				}
			}
			x.gone = func(h int) bool {
				n := held[h]
				return n != nil && n.Mode.IsDir() && !within(r.ref.Root, n)
			}
			x.do = func(o Op) string {
				if gate && (o.Kind == "remove" || o.Kind == "removeall") {
					h := &hsys{}
					for _, n := range held {
						h.slots[0] = &slot{node: n}
						if t := reffs.Lookup(r.ref, o.A, false); t != nil && h.held(t, o.Kind == "removeall") {
							return "fail"
						}
					}
				}
				return r.want(cleaned(Sys{Cleans: true}, o))
			}
			return x
		},
		open: []hop{
			{h: 0, kind: "open", path: Op{A: "t"}, flag: os.O_RDWR},
			{h: 1, kind: "open", path: Op{A: "d"}},
			{h: 2, kind: "open", path: Op{A: "a"}},
		},
		nh:      6,
		oldDirs: true,
	}
	if gate {
		k.open = k.open[:1]
		k.name += ", open files kept"
	}
	return k
}

// within tells whether n is in the tree below root.
func within(root, n *reffs.Node) bool {
	for _, k := range root.Kids {
		if k == n || within(k, n) {
			return true
		}
	}
	return root == n
}

func ovlConcOps() []hop {
	return []hop{
		pathHop("mkdir", "n"), pathHop("mkdir", "a/n"), pathHop("mkdir", "d"), pathHop("mkdirall", "n/m"), pathHop("mkdirall", "d/n/m"),
		pathHop("remove", "t"), pathHop("remove", "a/x"), pathHop("remove", "d/f"), pathHop("remove", "d"), pathHop("remove", "a"),
		pathHop("removeall", "d"), pathHop("removeall", "a"), pathHop("removeall", "n"),
		pathHop("rename", "t", "n"), pathHop("rename", "n", "t"), pathHop("rename", "a/x", "n"), pathHop("rename", "a/x", "d/f"), pathHop("rename", "d", "n"), pathHop("rename", "t", "d/n"),
		pathHop("link", "a/x", "n"), pathHop("symlink", "n", "t"), pathHop("symlink", "a/n", "x"),
		pathHop("chmod", "t"), pathHop("chmod", "a"), pathHop("chmod", "a/x"),
		pathHop("stat", "t"), pathHop("stat", "a/x"), pathHop("stat", "d/f"), pathHop("lstat", "n"), pathHop("readlink", "s"), pathHop("stat", "s"),
		{h: 4, kind: "open", path: Op{A: "n"}, flag: os.O_RDWR | os.O_CREATE | os.O_EXCL}, {h: 4, kind: "open", path: Op{A: "a/x"}, flag: os.O_RDWR},
		{h: 4, kind: "open", path: Op{A: "a/x"}, flag: os.O_WRONLY | os.O_TRUNC}, {h: 4, kind: "open", path: Op{A: "d"}}, {h: 4, kind: "open", path: Op{A: "a/n"}, flag: os.O_RDWR | os.O_CREATE},
	}
}

// ovlConcChanges is a few calls that copy up or leave marks.
func ovlConcChanges(ops []hop) (out []hop) {
	for _, o := range ops {
		switch o.path.String() {
		case (Op{Kind: "remove", A: "t"}).String(), (Op{Kind: "removeall", A: "d"}).String(), (Op{Kind: "rename", A: "t", B: "d/n"}).String(),
			(Op{Kind: "rename", A: "d", B: "n"}).String(), (Op{Kind: "rename", A: "a/x", B: "d/f"}).String(), pathHop("chmod", "a/x").path.String(), pathHop("mkdir", "a/n").path.String():
			out = append(out, o)
		}
		if o.kind == "open" && o.flag != os.O_RDONLY {
			out = append(out, o)
		}
	}
	return out
}

func ovlConcHandleOps() []hop {
	return []hop{
		{h: 0, kind: "write", n: 2}, {h: 0, kind: "chmod"}, {h: 0, kind: "stat"}, {h: 0, kind: "close"},
		{h: 1, kind: "names", n: -1}, {h: 1, kind: "infos"}, {h: 1, kind: "chmod"}, {h: 1, kind: "stat"}, {h: 1, kind: "close"},
		{h: 2, kind: "names", n: -1}, {h: 2, kind: "infos"}, {h: 2, kind: "chmod"}, {h: 2, kind: "stat"},
	}
}

func init() {
	core.Register(&core.Property{
		ID:   "O06",
		Init: func() error { syscall.Umask(0); return nil },
		Rule: "for every schedule within the bound, the calls' results, the final tree and the tree after a remount are those of one of the calls' sequential orders on the merged tree that respects which call returned before which began; no lower layer changes, no schedule deadlocks, panics or has two unordered accesses to the same memory",
		Assumptions: []string{
			"sequentially consistent memory; scheduling points at every lock operation, atomic operation and statement of overlayfs that reaches memory through a pointer, field, index or slice, which includes every call to a layer or the store",
			"layers are reference file systems, whose calls are atomic; so are the mark store's",
		},
		Scenarios: func(th bool) (out []core.Scenario) {
			pb := 1
			if th {
				pb = 2
			}
			for i, sp := range ovlHandleStacks {
				add := func(name string, k concKit, progs []concProg, preempt int, stmts bool) {
					what := "locks and atomics"
					if stmts {
						what = "statements, locks and atomics"
					}
					out = append(out, core.Scenario{
						Name:  name + ": " + sp.name,
						Bound: fmt.Sprintf("%d programs, every schedule with at most %d preemptions at %s", len(progs), preempt, what),
						Body:  concBody(k, apart(progs), vsched.Options{Preempt: preempt, Stmts: stmts, MaxPoints: 50000}),
					})
				}
				ps, hs := ovlConcOps(), ovlConcHandleOps()
				k, g := ovlConc(sp, false), ovlConc(sp, true)
				// The second stack differs in where copy-ups happen: between calls
				// that change something.
				stmts := i == 0 || th
				add("pairs of path calls", k, pathPairs(ps), pb, stmts)
				if !stmts {
					add("pairs of changing path calls", k, pathPairs(ovlConcChanges(ps)), pb, true)
				}
				add("path against handle calls", k, crossed(ps, hs), pb, stmts)
				add("pairs of handle calls", k, pairs(hs), pb, true)
				// A name taken over by another file while a handle works by name.
				mk := func(n string) hop { return hop{h: 5, kind: "open", path: Op{A: n}, flag: os.O_RDWR | os.O_CREATE} }
				var over []concProg
				for _, two := range [][2]hop{
					{pathHop("removeall", "d"), pathHop("mkdir", "d")}, {pathHop("rename", "d", "n"), pathHop("mkdir", "d")},
					{pathHop("removeall", "a"), pathHop("mkdir", "a")}, {pathHop("removeall", "a"), pathHop("rename", "d", "a")},
					{pathHop("remove", "t"), mk("t")}, {pathHop("rename", "t", "n"), mk("t")}, {pathHop("remove", "t"), pathHop("rename", "a/x", "t")},
				} {
					for _, o := range append(append([]hop{}, hs...), ps...) {
						if i > 0 && o.kind == "" && !th {
							continue
						}
						over = append(over, concProg{{two[0], two[1]}, {o}})
					}
				}
				add("names taken over", k, over, pb+1, false)
				var opens, rms []hop
				for _, o := range ps {
					switch {
					case o.kind == "open":
						opens = append(opens, o)
					case o.path.Kind == "remove" || o.path.Kind == "removeall":
						rms = append(rms, o)
					}
				}
				opens = append(opens, hop{h: 0, kind: "close"}, hop{h: 4, kind: "open", path: Op{A: "t"}, flag: os.O_RDWR}, hop{h: 4, kind: "open", path: Op{A: "d/f"}, flag: os.O_RDWR})
				add("removals against opens, kept while open", g, crossed(rms, opens), pb, true)
			}
			return out
		},
	})
}
