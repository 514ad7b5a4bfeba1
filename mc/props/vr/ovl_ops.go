package vr

import (
	"fmt"
	"os"
	"path"
	"strings"

	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// ovlOps is the alphabet over the merged view: the tree mutators, and those
// that matter over layers.
func ovlOps() []Op {
	var ops []Op
	add := func(o ...Op) { ops = append(ops, o...) }
	for _, p := range []string{"a", "b", "a/x", "a/d"} {
		add(Op{Kind: "mkdir", A: p, Mode: 0o755})
	}
	for _, p := range []string{"a/d/e", "b/x/y", "l/d"} {
		add(Op{Kind: "mkdirall", A: p, Mode: 0o750})
	}
	for _, p := range []string{"a", "a/x", "a/d/y", "b/x", "l", "l/x"} {
		add(Op{Kind: "create", A: p, Data: "1"})
	}
	for _, p := range []string{"b", "a/x"} {
		add(Op{Kind: "open", A: p, Flag: os.O_WRONLY | os.O_CREATE | os.O_EXCL, Mode: 0o600, Data: "22"})
	}
	for _, p := range []string{"a/x", "a/d/y", "l"} {
		add(Op{Kind: "open", A: p, Flag: os.O_WRONLY | os.O_APPEND, Data: "3"})
	}
	add(Op{Kind: "open", A: "a/x", Flag: os.O_RDWR | os.O_TRUNC})
	for _, t := range []string{"a", "b", "a/x", "../b", "l", "a/d", "nope/x"} {
		add(Op{Kind: "symlink", A: "l", B: t})
	}
	add(Op{Kind: "symlink", A: "a/x", B: "../b"})
	for _, p := range [][2]string{{"a/x", "b/x"}, {"a/x", "b"}, {"a/d/y", "a/x"}, {"l", "b"}} {
		add(Op{Kind: "link", A: p[0], B: p[1]})
	}
	for _, p := range []string{"a", "b", "a/x", "a/d", "a/d/y", "b/x", "l", "l/x"} {
		add(Op{Kind: "remove", A: p})
	}
	for _, p := range []string{"a", "a/d", "b", "l", "l/d"} {
		add(Op{Kind: "removeall", A: p})
	}
	for _, p := range [][2]string{
		{"a", "b"}, {"b", "a"}, {"a/x", "b/x"}, {"b/x", "a/x"}, {"a/x", "b"}, {"a/d", "b"}, {"b", "a/d"}, {"a/d", "a/x"}, {"a/x", "a/d"},
		{"a", "a/d/z"}, {"a", "a"}, {"l", "b"}, {"l/x", "b"}, {"b", "l/x"}, {"a/d/y", "a/x"},
	} {
		add(Op{Kind: "rename", A: p[0], B: p[1]})
	}
	for _, p := range []string{"a", "a/x", "a/d", "l"} {
		add(Op{Kind: "chmod", A: p, Mode: 0o711})
	}
	add(Op{Kind: "chtimes", A: "a/x"}, Op{Kind: "chtimes", A: "a/d"}, Op{Kind: "lchown", A: "l"}, Op{Kind: "chown", A: "b"})
	return ops
}

// ovlSpec is a start stack: seed lines per layer, top first.
type ovlSpec struct {
	name   string
	base   string // run in the sub-root opened here
	layers [][]string
	plain  []bool
}

func (o ovlSpec) build() stack {
	var st stack
	for i, l := range o.layers {
		st = append(st, newLayer(i, i == 0 || !o.plain[i], l))
	}
	return st
}

var ovlStacks = []ovlSpec{
	{"all in the lower", "", [][]string{{}, {"a/", "a/x=one", "a/d/", "a/d/y=two", "b=three", "l->a"}}, []bool{false, true}},
	{"half copied up", "", [][]string{{"a/", "a/x=top", "b/"}, {"a/", "a/x=low", "a/d/", "a/d/y=two", "b/", "b/x=hid", "l->a/x"}}, []bool{false, true}},
	{"masked", "", [][]string{{"a/", "!a/x", "^a/d", "a/d/", "!b"}, {"a/", "a/x=low", "a/d/", "a/d/y=two", "b/", "b/x=hid", "l->a/d"}}, []bool{false, true}},
	{"two lowers", "", [][]string{{}, {"a/", "a/d/", "b=mid", "!a/x", "l->b"}, {"a/", "a/x=low", "a/d/", "a/d/y=two", "b/", "b/x=hid"}}, []bool{false, false, true}},
	{"file over directory", "", [][]string{{"b/", "b/x=top"}, {"a=file", "b=mid", "l->b"}, {"a/", "a/x=low", "b/", "b/y=hid"}}, []bool{false, false, true}},
	{"alike names", "", [][]string{{"a/", "^a", "a/d/", "!a-x", "!ab", "a.d/", "^a.d", "a.d/x/", "^a.d/x"}, {"a/", "a/x=low", "a-x=hid", "ab=hid", "a.d/", "a.d/x/", "a.d/x/y=hid", "b=three"}}, []bool{false, true}},
	{"deep lower", "", [][]string{{"a/", "^a", "a/d/"}, {"b/", "!l"}, {"a/", "a/x=low", "a/d/", "a/d/y=two", "b/", "b/x=hid", "l->a"}}, []bool{false, false, true}},
	{"dangling", "", [][]string{{"l->a/new"}, {"a/", "a/d/", "a/d/y=one", "b->a/d/z", "!a/new"}, {"a/", "a/new=low"}}, []bool{false, false, true}},
}

// sub moves the stack below p/ and runs in the sub-root opened there.
func (o ovlSpec) sub() ovlSpec {
	out := ovlSpec{name: o.name + " (sub-root)", base: "p", plain: o.plain}
	for i, l := range o.layers {
		lines := []string{"p/"}
		if i == 0 {
			lines = append(lines, "out=secret")
		}
		for _, s := range l {
			switch {
			case s[0] == '!' || s[0] == '^':
				s = s[:1] + "p/" + s[1:]
			default:
				s = "p/" + s
			}
			lines = append(lines, s)
		}
		out.layers = append(out.layers, lines)
	}
	return out
}

// ovlRun drives one overlay against the reference.
type ovlRun struct {
	c      *core.C
	name   string
	st     stack
	s      Sys
	ref    *reffs.FS
	lowers string
	// pure holds the directories the top alone holds, which can be renamed.
	pure map[*reffs.Node]bool
	held int // handles the check itself holds
	// before is the view as of before the operation under way.
	before *reffs.FS
}

func newOvlRun(c *core.C, spec ovlSpec) *ovlRun {
	r := &ovlRun{c: c, name: spec.name, st: spec.build(), pure: map[*reffs.Node]bool{}}
	r.ref = union(r.st)
	r.lowers = r.st.lowers()
	r.s = r.st.sys(nil)
	r.markPure()
	if spec.base != "" {
		var err error
		if r.s, err = r.s.Sub(spec.base); err != nil {
			panic(err)
		}
		if r.ref, err = r.ref.OpenRoot(spec.base); err != nil {
			panic(err)
		}
	}
	return r
}

func (r *ovlRun) markPure() {
	var walk func(n *reffs.Node, p string)
	walk = func(n *reffs.Node, p string) {
		if p != "" && n.Mode.IsDir() && pure(r.st, p) {
			r.pure[n] = true
		}
		for k, v := range n.Kids {
			walk(v, path.Join(p, k))
		}
	}
	walk(r.ref.Root, "")
}

// want runs o on the reference, as the overlay promises to behave.
func (r *ovlRun) want(o Op) string {
	if o.Kind == "rename" {
		// Directories a lower contributes to do not move.
		n := reffs.Lookup(r.ref, o.A, false)
		if n != nil && n.Mode.IsDir() && !r.pure[n] {
			if class, _ := r.try(o); failed(class) || path.Clean(o.A) == path.Clean(o.B) {
				return class
			}
			return "fail"
		}
	}
	before := dirs(r.ref)
	got := apply(ofRef(r.ref), o, false)
	for n := range dirs(r.ref) {
		if !before[n] {
			r.pure[n] = true
		}
	}
	return got
}

// try tells what o gives without keeping its effect.
func (r *ovlRun) try(o Op) (string, *reffs.FS) {
	cl := r.ref.Clone()
	return apply(ofRef(cl), o, false), cl
}

func dirs(f *reffs.FS) map[*reffs.Node]bool {
	out := map[*reffs.Node]bool{}
	var walk func(n *reffs.Node)
	walk = func(n *reffs.Node) {
		if n.Mode.IsDir() {
			out[n] = true
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(f.Root)
	return out
}

// skip tells that o is outside the promise in the current state.
func (r *ovlRun) skip(o Op) bool {
	switch o.Kind {
	case "rename":
		a, b := reffs.Lookup(r.ref, o.A, false), reffs.Lookup(r.ref, o.B, false)
		// Two names of one file: the top's business.
		return a != nil && a == b && path.Clean(o.A) != path.Clean(o.B)
	case "mkdirall":
		return dangling(r.ref, o.A)
	case "open":
		return appendsDir(r.ref, o)
	}
	return false
}

// step applies o to both and compares.
func (r *ovlRun) step(o Op) string {
	c := r.c
	c.Step()
	was := dump(ofRef(r.ref), false)
	want := r.want(cleaned(r.s, o))
	got := apply(r.s, o, false)
	c.Logf("%v: %s", o, got)
	if !same(r.s, o, want, got) {
		c.Fail("result:"+o.String(), "%v over %s gives %q, one file system gives %q\nhistory: %s\nthe view was\n%s", o, r.name, got, want, c.History(), was)
	}
	if !c.Fresh() {
		return ""
	}
	w := r.compare(o.String())
	return w
}

func (r *ovlRun) compare(tag string) string {
	c := r.c
	w, g := dump(ofRef(r.ref), false), dump(r.s, false)
	if w != g {
		c.Fail("tree:"+tag, "after %s over %s the view is\n%s\none file system holds\n%s\nhistory: %s\nstack:\n%s", tag, r.name, g, w, c.History(), r.st)
	}
	for _, p := range viewPaths[1:7] {
		if w, g := apply(ofRef(r.ref), Op{Kind: "lstat", A: p}, false), apply(r.s, Op{Kind: "lstat", A: p}, false); w != g && !(failed(w) && failed(g)) {
			c.Fail("lookup:"+tag, "after %s over %s looking up %s gives %s, one file system gives %s\nhistory: %s", tag, r.name, p, g, w, c.History())
		}
	}
	if bad := times(r.s, r.ref); bad != "" {
		c.Fail("times:"+tag, "after %s over %s: %shistory: %s", tag, r.name, bad, c.History())
	}
	if l := r.st.lowers(); l != r.lowers {
		c.Fail("lower:"+tag, "%s over %s changed the lower layers from\n%s\nto\n%s\nhistory: %s", tag, r.name, r.lowers, l, c.History())
	}
	if n := len(r.st[0].fs.Root.Kids["work"].Kids); n != 0 {
		c.Fail("work:"+tag, "%s over %s leaves %d files in work/\nhistory: %s", tag, r.name, n, c.History())
	}
	if n := open(r.st); n != r.held {
		c.Fail("handles:"+tag, "%s over %s leaves %d handles open, not %d\nhistory: %s", tag, r.name, n, r.held, c.History())
	}
	return w
}

func open(st stack) int {
	n := 0
	for _, l := range st {
		n += l.fs.Open_
	}
	return n
}

// pureKey renders which directories can be renamed, part of the state.
func (r *ovlRun) state() string {
	var b strings.Builder
	var walk func(n *reffs.Node, p string)
	walk = func(n *reffs.Node, p string) {
		if r.pure[n] {
			b.WriteString(p + ";")
		}
		for _, k := range reffs.Names(n) {
			walk(n.Kids[k], path.Join(p, k))
		}
	}
	walk(r.ref.Root, ".")
	return r.st[0].String() + b.String() + r.ref.Dump()
}

func ovlSequences(specs []ovlSpec, ops []Op, depth int) func(c *core.C) {
	return func(c *core.C) {
		r := newOvlRun(c, specs[c.Choose(len(specs))])
		c.Logf("%s", r.name)
		for i := 0; i < depth; i++ {
			o := ops[c.Choose(len(ops))]
			if r.skip(cleaned(r.s, o)) || o.Kind == "removeall" && strings.HasSuffix(o.A, "/.") {
				c.Prune()
			}
			r.step(o)
			if c.Fresh() && !c.Visit(r.name+r.state(), depth-i-1) {
				return
			}
		}
	}
}

// again closes the overlay and mounts it anew: as it was, or with its old top
// as the first lower of a new one.
func (r *ovlRun) again(how string) {
	c := r.c
	c.Step()
	c.Logf("%s", how)
	before := r.st.String()
	if err := r.s.Close(); err != nil {
		c.Fail("close", "Close gives %v\nhistory: %s", err, c.History())
	}
	if r.st.String() != before {
		c.Fail("close", "Close changed the layers\nhistory: %s", c.History())
	}
	if how != "restart" {
		// What a crashed predecessor left in work/ is nobody's content.
		r.st[0].ro = how == "restack read-only"
		top := newLayer(len(r.st), true, nil)
		top.content().Mode = r.st[0].content().Mode
		top.content().Mtime = r.st[0].content().Mtime
		r.st = append(stack{top}, r.st...)
		r.lowers = r.st.lowers()
	} else {
		r.st[0].fs.Put("work/tmp-1", "left over", 0o644)
	}
	r.s = r.st.sys(nil)
	r.compare(how)
	if how != "restart" {
		// Two names of one file in a lower are two files from now on, and nothing
		// is the top's alone any more.
		r.ref = union(r.st)
		r.pure = map[*reffs.Node]bool{}
		r.markPure()
	}
}

func ovlRestarts(spec ovlSpec, ops []Op, depth, mounts int) func(c *core.C) {
	return func(c *core.C) {
		r := newOvlRun(c, spec)
		c.Logf("%s", r.name)
		left := mounts
		for i := 0; i < depth; i++ {
			k := len(ops)
			if left > 0 {
				k += 3
			}
			k = c.Choose(k)
			if k >= len(ops) {
				left--
				r.again([]string{"restart", "restack", "restack read-only"}[k-len(ops)])
			} else {
				o := ops[k]
				if r.skip(cleaned(r.s, o)) {
					c.Prune()
				}
				r.step(o)
			}
			if c.Fresh() && !c.Visit(r.name+fmt.Sprint(left)+r.st.String()+r.state(), depth-i-1) {
				break
			}
		}
		// Whatever the sequence, a new overlay over the layers as they stand shows
		// the same.
		if c.Fresh() {
			r.again("restart")
			r.again("restack")
		}
	}
}

func init() {
	core.Register(&core.Property{
		ID: "O03", Unpriv: true,
		Rule: "after every sequence with remounts anywhere in it, an overlay mounted anew on the layers, or with the old top as first lower under a fresh top (read-only too), shows exactly what one file system with the same history holds, and goes on behaving like it",
		Assumptions: []string{
			"layers are reference file systems; marks come from an in-memory metadata store (O05 checks the sqlite one)",
		},
		Scenarios: func(th bool) []core.Scenario {
			d := 3
			if th {
				d = 4
			}
			ops := ovlOps()
			var out []core.Scenario
			for _, sp := range ovlStacks {
				out = append(out, core.Scenario{Name: "remounts: " + sp.name, Bound: bound(1, len(ops)+3, d, true) + ", at most 2 remounts inside, a restart and a restack at the end", Body: ovlRestarts(sp, ops, d, 2)})
			}
			after := []Op{{Kind: "removeall", A: "a"}, {Kind: "create", A: "a/x", Data: "new"}, {Kind: "mkdir", A: "b"}, {Kind: "rename", A: "a/x", B: "c"}}
			out = append(out,
				core.Scenario{Name: "frozen", Bound: fmt.Sprintf("3 start stacks, 2 places of the top, 4 ways to refuse writes, every operation before and one of %d after", len(after)), Body: frozenTop(topPlaces[:2], ops, 1, after)},
				core.Scenario{Name: "half a layer", Bound: "5 x 5 x 6 states of the layout, 5 ways to mount it", Body: halfLayers})
			return out
		},
	})
}

func init() {
	core.Register(&core.Property{
		ID: "O02", Unpriv: true,
		Rule: "every operation of every sequence has the result, and leaves the merged view, one plain file system with the same content has (a directory a lower contributes to may refuse to move, any other moves); lower layers, work/ and open handle counts are as before",
		Assumptions: []string{
			"reference file system = in-memory POSIX tree, compared with the kernel by V05",
			"layers are reference file systems; marks come from an in-memory metadata store",
			"hard links between lower files and renames between two links of one file are not in the alphabet",
		},
		Scenarios: func(th bool) []core.Scenario {
			d := 2
			if th {
				d = 3
			}
			ops := ovlOps()
			var out []core.Scenario
			for _, sp := range ovlStacks {
				out = append(out, core.Scenario{Name: "sequences: " + sp.name, Bound: bound(1, len(ops), d+1, true), Body: ovlSequences([]ovlSpec{sp}, ops, d+1)})
			}
			for _, sp := range ovlStacks[:4] {
				out = append(out, core.Scenario{Name: "sub-root: " + sp.name, Bound: bound(1, len(ops), d, true), Body: ovlSequences([]ovlSpec{sp.sub()}, ops, d)})
			}
			fl := flagOps()
			out = append(out, core.Scenario{Name: "open flags", Bound: bound(len(ovlStacks), len(fl), 1, false), Body: ovlSequences(ovlStacks, fl, 1)})
			out = append(out, core.Scenario{Name: "special files", Bound: "5 kinds at 3 depths of a lower, 2 tops, every sequence of 2 of 32 operations", Body: special})
			out = append(out, core.Scenario{Name: "policies", Bound: bound(len(ovlStacks), len(ops), d, true) + ", by 3 policies of the caller's", Body: policies(ovlStacks, ops, d)})
			odd := oddOps()
			out = append(out, core.Scenario{Name: "odd paths", Bound: bound(len(ovlStacks), len(odd), 1, false), Body: ovlSequences(ovlStacks, odd, 1)})
			return out
		},
	})
}
