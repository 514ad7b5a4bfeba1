package vr

import (
	"errors"
	"fmt"
	"os"
	"path"
	"strings"
	"syscall"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// O07: handles onto an overlay, and the gate that keeps open files.

var ovlHandleStacks = []ovlSpec{
	{"top over a lower", "", [][]string{
		{"t=top", "d/", "d/f=in"},
		{"a/", "a/x=low", "t=hid", "s->t"},
	}, []bool{false, true}},
	{"all in the lower", "", [][]string{
		{},
		{"t=low", "d/", "d/f=in", "a/", "a/x=one", "s->t"},
	}, []bool{false, true}},
}

func ovlHandleOps(slots int) (out []hop) {
	for i := range slots {
		for _, o := range []hop{
			{kind: "open", path: Op{A: "t"}}, {kind: "open", flag: os.O_RDWR, path: Op{A: "t"}},
			{kind: "open", path: Op{A: "a/x"}}, {kind: "open", flag: os.O_RDWR, path: Op{A: "a/x"}},
			{kind: "open", path: Op{A: "s"}}, {kind: "open", flag: os.O_RDWR | os.O_CREATE, path: Op{A: "n"}},
			{kind: "open", path: Op{A: "d"}}, {kind: "open", path: Op{A: "a"}}, {kind: "open", flag: os.O_RDWR, path: Op{A: "d/f"}},
			{kind: "open", n: 1, path: Op{A: "d/f"}},
			{kind: "read", n: 2}, {kind: "write", n: 2}, {kind: "copyin", n: 1}, {kind: "copyout"}, {kind: "truncate", off: 1}, {kind: "chmod"}, {kind: "infos"}, {kind: "dirseek"}, {kind: "close"},
		} {
			o.h = i
			out = append(out, o)
		}
	}
	for _, p := range []Op{
		{Kind: "remove", A: "t"}, {Kind: "remove", A: "s"}, {Kind: "remove", A: "a/x"}, {Kind: "remove", A: "d/f"}, {Kind: "remove", A: "n"},
		{Kind: "removeall", A: "d"}, {Kind: "removeall", A: "a"}, {Kind: "removeall", A: "n"},
		{Kind: "rename", A: "t", B: "n"}, {Kind: "rename", A: "n", B: "t"}, {Kind: "rename", A: "a/x", B: "n"}, {Kind: "rename", A: "d", B: "n"},
		{Kind: "rename", A: "n", B: "d"}, {Kind: "rename", A: "t", B: "a/x"}, {Kind: "rename", A: "d/f", B: "t"}, {Kind: "rename", A: "t", B: "t"},
		{Kind: "create", A: "t", Data: "z"}, {Kind: "create", A: "a/x", Data: "z"}, {Kind: "create", A: "d/f", Data: "z"}, {Kind: "create", A: "n/g", Data: "z"},
		{Kind: "mkdir", A: "d", Mode: 0o755}, {Kind: "mkdir", A: "t", Mode: 0o755}, {Kind: "chmod", A: "t", Mode: 0o640}, {Kind: "chmod", A: "d", Mode: 0o750},
	} {
		out = append(out, hop{path: p})
	}
	return out
}

// held tells whether a handle is open on n or, with tree, below it.
func (h *hsys) held(n *reffs.Node, tree bool) bool {
	for _, sl := range h.slots {
		if sl == nil || sl.closed {
			continue
		}
		found := false
		var walk func(x *reffs.Node)
		walk = func(x *reffs.Node) {
			found = found || x == sl.node
			if tree {
				for _, k := range x.Kids {
					walk(k)
				}
			}
		}
		walk(n)
		if found {
			return true
		}
	}
	return false
}

// pathStep runs a path operation on an overlay with handles out.
func (h *hsys) pathStep(r *ovlRun, p Op, gate bool) bool {
	c := h.c
	if r.skip(p) {
		return false
	}
	if p.Data != "" {
		p.Data = h.data(len(p.Data))
	}
	c.Step()
	n, to := reffs.Lookup(r.ref, p.A, false), (*reffs.Node)(nil)
	if p.B != "" {
		to = reffs.Lookup(r.ref, p.B, false)
	}
	refuse, may := false, false
	if gate {
		switch p.Kind {
		case "remove":
			refuse = n != nil && h.held(n, false)
		case "removeall":
			refuse = n != nil && h.held(n, true)
		case "rename":
			// Moving an open file, or replacing one, may be refused as well.
			may = n != nil && h.held(n, true) || to != nil && h.held(to, true)
		}
	}
	var err error
	if refuse || may {
		switch p.Kind {
		case "remove":
			err = h.s.Remove(p.A)
		case "removeall":
			err = h.s.RemoveAll(p.A)
		default:
			err = h.s.Rename(p.A, p.B)
		}
		c.Logf("%v: %s", p, class(err, false))
		if refuse {
			if err == nil {
				c.Fail("gate:"+p.String(), "%v on %s succeeds with a handle open there\nhistory: %s", p, h.s.Label, c.History())
			}
			if p.Kind == "removeall" && !isSharing(err) {
				c.Fail("gate-error:"+p.String(), "%v on %s with a handle open gives %v\nhistory: %s", p, h.s.Label, err, c.History())
			}
			return true
		}
		if isSharing(err) && class(err, false) == "fail" {
			if w, _ := r.try(p); !failed(w) {
				return true
			}
		}
		got := class(err, false)
		if want := r.want(p); got != want && !(failed(got) && failed(want)) {
			c.Fail("path:"+p.String(), "%v on %s gives %q, want %q\nhistory: %s", p, h.s.Label, got, want, c.History())
		}
		return true
	}
	want := r.want(p)
	got := apply(h.s, p, false)
	c.Logf("%v: %s", p, got)
	if got != want && !(failed(got) && failed(want)) {
		c.Fail("path:"+p.String(), "%v on %s gives %q, want %q\nhistory: %s", p, h.s.Label, got, want, c.History())
	}
	return true
}

// isSharing tells the gate's refusal: off Windows it wraps EINVAL.
func isSharing(err error) bool {
	no, ok := errnoOf(err)
	return ok && no == syscall.EINVAL
}

func ovlHandles(spec ovlSpec, gate bool, ops []hop, depth int) func(c *core.C) {
	return func(c *core.C) {
		r := newOvlRun(c, spec)
		o, err := r.st.mount(&overlayfs.Option{DisableOpenFileRemoval: gate})
		if err != nil {
			panic(err)
		}
		r.s = ofOverlay(o)
		h := &hsys{c: c, s: r.s, ref: r.ref, linked: map[*reffs.Node]bool{}}
		defer h.closeAll()
		for i := range depth {
			o := ops[c.Choose(len(ops))]
			if i == 0 && o.kind != "open" || o.h == 1 && h.slots[0] == nil {
				c.Prune()
			}
			if o.kind == "" {
				if !h.pathStep(r, o.path, gate) {
					c.Prune()
				}
			} else {
				lower, sub := false, h.s
				if o.kind == "open" {
					// Copied up already?
					full := o.path.A
					if full == "s" {
						full = "t"
					}
					n := r.st[0].content()
					for _, k := range strings.Split(full, "/") {
						if n = n.Kids[k]; n == nil {
							break
						}
					}
					lower = n == nil && o.flag == os.O_RDONLY
					if o.n == 1 {
						// Through a sub-root.
						s, err := h.s.Sub(path.Dir(o.path.A))
						if err != nil {
							c.Prune()
						}
						sub = s
					}
				} else if sl := h.slots[o.h]; o.kind == "chmod" && sl != nil && sl.lower && !sl.node.Mode.IsDir() {
					c.Prune()
				}
				was := h.s
				h.s = sub
				saved := r.ref.Clone()
				ok := h.stepIn(o)
				h.s = was
				if !ok {
					c.Prune()
				}
				if sl := h.slots[o.h]; o.kind == "open" && sl != nil && !sl.closed && lower {
					sl.lower = true
					sl.old, _ = saved.OpenFile(o.path.A, os.O_RDONLY, 0)
				}
			}
			if !c.Fresh() {
				continue
			}
			held := 0
			for _, sl := range h.slots {
				if sl != nil && !sl.closed {
					held++
				}
			}
			r.held = held
			r.compare(o.String())
			h.look(o.String())
			if !c.Visit(spec.name+r.state()+h.state(), depth-i-1) {
				return
			}
		}
	}
}

// stepIn is step for an open that may go through a sub-root.
func (h *hsys) stepIn(o hop) bool {
	if o.kind != "open" || o.n != 1 {
		return h.step(o)
	}
	d, err := h.ref.OpenRoot(path.Dir(o.path.A))
	if err != nil {
		return false
	}
	full, name := h.ref, o.path.A
	h.ref = d
	o.path.A = path.Base(name)
	ok := h.step(o)
	h.ref = full
	if sl := h.slots[o.h]; ok && sl != nil && !sl.closed && sl.name == path.Base(name) {
		sl.node = reffs.Lookup(full, name, true)
		sl.name = name
	}
	return ok
}

func init() {
	core.Register(&core.Property{
		ID: "O07", Unpriv: true,
		Rule: "a handle obtained from an overlay goes on being the same file or directory through copy-up, renames and removals of its name (read handles opened onto a lower may show the content from then); with the option set, a removal is refused exactly when a handle is open there",
		Assumptions: []string{
			"layers are reference file systems; marks come from an in-memory metadata store",
			"renaming an open file, or over one, may be refused with the option set",
		},
		Scenarios: func(th bool) (out []core.Scenario) {
			d1, d2 := 4, 3
			if th {
				d1, d2 = 5, 4
			}
			one, two := ovlHandleOps(1), ovlHandleOps(2)
			var dirs []hop
			for _, o := range one {
				switch p := o.path; {
				case o.kind == "open" && (p.A == "d" || p.A == "a"), o.kind == "infos", o.kind == "chmod", o.kind == "dirseek", o.kind == "close",
					o.kind == "" && (p.A == "d" || p.A == "n" && p.Kind == "rename" || p.A == "d/f" || p.A == "n/g" || p.A == "a" || p.A == "a/x" && p.Kind == "create"):
					dirs = append(dirs, o)
				}
			}
			for _, sp := range ovlHandleStacks {
				for _, gate := range []bool{false, true} {
					g := "free"
					if gate {
						g = "kept while open"
					}
					out = append(out,
						core.Scenario{Name: fmt.Sprintf("one handle, %s: %s", g, sp.name), Bound: bound(1, len(one), d1, true), Body: ovlHandles(sp, gate, one, d1)},
						core.Scenario{Name: fmt.Sprintf("directory handle, %s: %s", g, sp.name), Bound: bound(1, len(dirs), d1+2, true), Body: ovlHandles(sp, gate, dirs, d1+2)},
						core.Scenario{Name: fmt.Sprintf("two handles, %s: %s", g, sp.name), Bound: bound(1, len(two), d2, true), Body: ovlHandles(sp, gate, two, d2)},
					)
				}
			}
			// Every call there is, on directories.
			var every []hop
			for _, o := range fileHandleOps(1, th) {
				if o.kind != "" && o.kind != "open" {
					every = append(every, o)
				}
			}
			for _, o := range dirs {
				if o.kind == "" || o.kind == "open" {
					every = append(every, o)
				}
			}
			for _, sp := range ovlHandleStacks {
				out = append(out, core.Scenario{Name: "every call on a directory: " + sp.name, Bound: bound(1, len(every), d1, true), Body: ovlHandles(sp, false, every, d1)})
			}
			// Far below the names that change, and names alike.
			deep := ovlSpec{"deep", "", [][]string{
				{"d/", "d/e/", "d/e/g=top", "d-e/", "d-e/g=alike"},
				{"a/", "a/b/", "a/b/c/", "a/b/c/f=low", "ab=alike", "m/", "m/b/", "m/b/k=low"},
			}, []bool{false, true}}
			file := func(p string, h int) []hop {
				return []hop{{h: h, kind: "open", path: Op{A: p}}, {h: h, kind: "open", path: Op{A: p}, flag: os.O_RDWR}}
			}
			far := append(append(file("d/e/g", 0), file("a/b/c/f", 0)...), file("d-e/g", 0)...)
			far = append(append(far, file("ab", 0)...), file("m/b/k", 0)...)
			far = append(far, hop{h: 0, kind: "open", path: Op{A: "d/e"}}, hop{h: 0, kind: "open", path: Op{A: "a/b"}},
				hop{h: 0, kind: "write", n: 2}, hop{h: 0, kind: "chmod", n: 0o600}, hop{h: 0, kind: "infos", n: -1}, hop{h: 0, kind: "close"})
			for _, o := range []Op{
				{Kind: "removeall", A: "d"}, {Kind: "removeall", A: "d/e"}, {Kind: "removeall", A: "a"}, {Kind: "removeall", A: "a/b"}, {Kind: "removeall", A: "m"},
				{Kind: "rename", A: "d", B: "n"}, {Kind: "rename", A: "d/e", B: "d/n"}, {Kind: "rename", A: "d/e", B: "a/n"}, {Kind: "removeall", A: "n"}, {Kind: "remove", A: "d/e/g"},
			} {
				far = append(far, hop{path: o})
			}
			for _, gate := range []bool{false, true} {
				g := "free"
				if gate {
					g = "kept while open"
				}
				out = append(out, core.Scenario{Name: "far below, " + g, Bound: bound(1, len(far), d1, true), Body: ovlHandles(deep, gate, far, d1)})
			}
			out = append(out, core.Scenario{Name: "closing fails", Bound: "every file and way to open it; the layer's Close fails; then every removal of it, twice", Body: closeFails})
			return out
		},
	})
}

// closeFails: a handle whose Close fails is closed all the same, and keeps
// nothing from being removed.
func closeFails(c *core.C) {
	spec := ovlHandleStacks[c.Choose(2)]
	st := spec.build()
	o, err := st.mount(&overlayfs.Option{DisableOpenFileRemoval: true})
	if err != nil {
		panic(err)
	}
	name := core.Pick(c, "t", "d/f", "a/x", "d", "a")
	flag := core.Pick(c, os.O_RDONLY, os.O_RDWR)
	rms := [][2]string{{"remove", name}, {"removeall", name}, {"removeall", path.Dir(name)}}
	rm := rms[c.Choose(len(rms))]
	if rm[1] == "." || rm[0] == "remove" && (name == "d" || name == "a") {
		c.Prune()
	}
	second := c.Bool()
	f, err := o.OpenFile(name, flag, 0)
	if err != nil {
		c.Prune()
	}
	var g vroot.File
	if second {
		if g, err = o.OpenFile(name, os.O_RDONLY, 0); err != nil {
			panic(err)
		}
	}
	c.Logf("%s: open %s flags %#x, the layer fails to close it, another handle: %v, %s %s", spec.name, name, flag, second, rm[0], rm[1])
	c.Step()
	failing := true
	for _, l := range st {
		l.fs.After = func(op reffs.Op) error {
			if failing && op.Name == "f.close" {
				return syscall.EIO
			}
			return nil
		}
	}
	cerr := f.Close()
	failing = false
	if cerr == nil {
		c.Fail("close-swallowed", "Close of a handle its layer fails to close reports success\nhistory: %s", c.History())
	}
	do := func() error {
		if rm[0] == "remove" {
			return o.Remove(rm[1])
		}
		return o.RemoveAll(rm[1])
	}
	if second {
		// Closing the first twice says nothing about the second.
		_ = f.Close()
		if err := do(); err == nil {
			c.Fail("gate", "removed although another handle is open\nhistory: %s", c.History())
		}
		if err := g.Close(); err != nil {
			c.Fail("close", "the other handle: %v\nhistory: %s", err, c.History())
		}
	}
	if err := do(); err != nil {
		c.Fail("still-held", "no handle is open and the removal is refused: %v\nhistory: %s", err, c.History())
	}
	c.Distinct(c.History())
}

func errnoOf(err error) (no syscall.Errno, ok bool) {
	ok = errors.As(err, &no)
	return no, ok
}
