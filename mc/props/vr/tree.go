package vr

import (
	"io/fs"
	"os"
	"path"
	"strings"
	"syscall"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// mutators is the alphabet of the sequence scenarios.
func mutators() []Op {
	var ops []Op
	add := func(o ...Op) { ops = append(ops, o...) }
	for i, p := range []string{"a", "b", "a/x", "b/x"} {
		add(Op{Kind: "mkdir", A: p, Mode: []fs.FileMode{0o777, 0o755, 0o700, 0o754}[i]})
	}
	for _, p := range []string{"a/x", "b/x/y", "l/x"} {
		add(Op{Kind: "mkdirall", A: p, Mode: 0o750})
	}
	for _, p := range []string{"a", "a/x", "b/x", "l", "l/x"} {
		add(Op{Kind: "create", A: p, Data: "1"})
	}
	for _, p := range []string{"b", "a/x", "l"} {
		add(Op{Kind: "open", A: p, Flag: os.O_WRONLY | os.O_CREATE | os.O_EXCL, Mode: 0o600, Data: "22"})
	}
	for _, p := range []string{"a/x", "l"} {
		add(Op{Kind: "open", A: p, Flag: os.O_RDWR | os.O_TRUNC})
	}
	for _, p := range []string{"a", "a/x", "l"} {
		add(Op{Kind: "open", A: p, Flag: os.O_WRONLY | os.O_APPEND, Data: "3"})
	}
	for _, t := range []string{"a", "b", "a/x", "../b", "/a", "l", "b/./x"} {
		add(Op{Kind: "symlink", A: "l", B: t})
	}
	for _, t := range []string{"../b", "b", "../l", ".."} {
		add(Op{Kind: "symlink", A: "a/x", B: t})
	}
	for _, p := range [][2]string{{"a/x", "b/x"}, {"a/x", "b"}, {"a", "b"}, {"l", "b"}, {"l/x", "b/x"}} {
		add(Op{Kind: "link", A: p[0], B: p[1]})
	}
	for _, p := range []string{"a", "b", "a/x", "b/x", "l", "l/x"} {
		add(Op{Kind: "remove", A: p})
	}
	for _, p := range []string{"a", "a/x", "l", "l/x"} {
		add(Op{Kind: "removeall", A: p})
	}
	for _, p := range [][2]string{
		{"a", "b"}, {"b", "a"}, {"a/x", "b/x"}, {"b/x", "a/x"}, {"a/x", "b"}, {"a", "b/x"},
		{"a", "a/x"}, {"a", "a/x/y"}, {"a", "a"}, {"a/x", "a"}, {"a/x", "a/x"}, {"l", "b"}, {"a", "l"}, {"l/x", "b"}, {"b", "l/x"},
	} {
		add(Op{Kind: "rename", A: p[0], B: p[1]})
	}
	for i, p := range []string{"a", "a/x", "l"} {
		add(Op{Kind: "chmod", A: p, Mode: []fs.FileMode{0o733, 0o711, 0o750}[i]})
	}
	return ops
}

var startTrees = [][]string{
	{},
	{"a/", "a/x=one", "b/", "l->a"},
	{"a/", "a/x/", "a/x/y=deep", "b=file", "l->a/x"},
	{"a=top", "b/", "b/x->../a", "l->b"},
	{"a/", "a/x=one", "b/", "b/x&a/x", "l->b/x"},
}

// kit makes a fresh system under test.
type kit struct {
	name string
	fine bool
	mk   func() (s Sys, done func())
	// skip tells that the operation is outside what the system promises in the
	// reference's current state.
	skip func(ref *reffs.FS, o Op) bool
	// anyDot systems clean a trailing "." away before RemoveAll.
	anyDot bool
	// noLoop systems report loops of links as a plain failure.
	noLoop bool
	// byName systems list an open directory by the name it was opened by.
	byName bool
	// umask the system applies to what it creates.
	umask fs.FileMode
}

// masked is o as the umask changes it.
func (k kit) masked(o Op) Op {
	switch o.Kind {
	case "mkdir", "mkdirall", "open":
		o.Mode &^= k.umask
	}
	return o
}

// views is what can be seen of s and of the reference.
func (k kit) views(ref *reffs.FS, s Sys) (want, got string) {
	want, got = dump(ofRef(ref), k.fine), dump(s, k.fine)
	if k.noLoop {
		want, got = strings.ReplaceAll(want, " = loop\n", " = fail\n"), strings.ReplaceAll(got, " = loop\n", " = fail\n")
	}
	return want, got
}

func nothing() {}

var kitOsRoot = kit{name: "osfs.Root", mk: func() (Sys, func()) {
	d := scratchDir()
	r := newOsRoot(d)
	return ofRoot[*osfs.File, *osfs.Root]("osfs.Root", false, r), func() { _ = r.Close(); dropDir(d) }
}, skip: func(ref *reffs.FS, o Op) bool {
	switch o.Kind {
	case "mkdirall":
		// os.Root gives up on some dangling links that name more than one missing
		// directory.
		if dangling(ref, o.A) {
			return true
		}
	}
	switch o.Kind {
	case "mkdir", "mkdirall", "removeall", "rename":
		// os.Root's own rules for unclean paths here; scenario "os.Root" compares
		// osfs with them.
		if o.A != path.Clean(o.A) || o.B != "" && o.B != path.Clean(o.B) {
			return true
		}
	}
	// os.Root refuses to rename a directory over a directory.
	if o.Kind == "rename" {
		a, aerr := ref.Lstat(o.A)
		b, berr := ref.Lstat(o.B)
		return aerr == nil && berr == nil && a.IsDir() && b.IsDir()
	}
	return false
}}

var kitOsFs = kit{name: "osfs.Fs", mk: func() (Sys, func()) {
	d := scratchDir()
	f, err := osfs.NewFs(d)
	if err != nil {
		panic(err)
	}
	return Sys{Fs: vroot.Widen[*osfs.File](f), Label: "osfs.Fs", Cleans: true, Sub: func(n string) (Sys, error) {
		r, err := f.OpenRoot(n)
		if err != nil {
			return Sys{}, err
		}
		return ofRoot[*osfs.File, *osfs.Root]("osfs.Root", false, r), nil
	}}, func() { dropDir(d) }
}, skip: func(ref *reffs.FS, o Op) bool {
	// Unrooted: links are followed by the kernel wherever they lead, so anything
	// that leaves the root in the reference is outside the promise.
	if absLink(ref) {
		return true
	}
	switch o.Kind {
	case "symlink", "rename", "link":
		// A link leading out makes the tree mean something else than in a root.
		r := ref.Clone()
		_ = apply(ofRef(r), o, false)
		if absLink(r) {
			return true
		}
	case "remove":
		// The directory the wrapper stands for is its parent's entry.
		if path.Clean(o.A) == "." {
			return true
		}
	case "mkdirall":
		// os.MkdirAll does not create through a dangling link.
		if dangling(ref, o.A) {
			return true
		}
	}
	r := ref.Clone()
	for _, p := range []string{o.A, o.B} {
		if p == "" || (o.Kind == "symlink" && p == o.B) {
			continue
		}
		if _, err := r.Stat(path.Clean(p)); class(err, false) == "escape" {
			return true
		}
		if _, err := r.Lstat(path.Clean(p)); class(err, false) == "escape" {
			return true
		}
	}
	// os.Rename refuses an existing directory as destination by contract.
	if o.Kind == "rename" {
		if fi, err := r.Lstat(o.B); err == nil && fi.IsDir() {
			return true
		}
	}
	return false
}}

// absLink tells whether any link leaves the root or is absolute.
func absLink(f *reffs.FS) bool {
	bad := false
	var walk func(n *reffs.Node, p string)
	walk = func(n *reffs.Node, p string) {
		if n.Target != "" {
			if _, err := f.Stat(p); class(err, false) == "escape" {
				bad = true
			}
		}
		for _, k := range reffs.Names(n) {
			walk(n.Kids[k], path.Join(p, k))
		}
	}
	walk(f.Root, ".")
	return bad
}

// appendsDir tells a directory opened for reading with O_APPEND: the module
// counts that as a write, which directories refuse.
func appendsDir(ref *reffs.FS, o Op) bool {
	if o.Kind != "open" || o.Flag != os.O_RDONLY|os.O_APPEND {
		return false
	}
	fi, err := ref.Stat(o.A)
	return err == nil && fi.IsDir()
}

// synthSkip lists where synthfs documents or plainly chooses another behaviour.
func synthSkip(ref *reffs.FS, o Op) bool {
	switch o.Kind {
	case "link":
		// The source is resolved through links, and what is not a file is refused.
		fi, err := ref.Lstat(o.A)
		return err == nil && !fi.Mode().IsRegular()
	case "rename":
		// Two names of one file are two entries here; POSIX keeps both.
		a, aerr := ref.Lstat(o.A)
		b, berr := ref.Lstat(o.B)
		return aerr == nil && berr == nil && a.(reffs.Info).Ino == b.(reffs.Info).Ino && path.Clean(o.A) != path.Clean(o.B)
	case "chmod", "chtimes":
		// Metadata is copied at link time, not shared.
		return ref.Links(o.A) > 1
	case "open", "create":
		if appendsDir(ref, o) {
			return true
		}
		if o.Kind == "create" || o.Flag&os.O_CREATE != 0 {
			// A dangling link is not created through.
			l, err := ref.Lstat(o.A)
			if err == nil && l.Mode()&os.ModeSymlink != 0 {
				_, err := ref.Stat(o.A)
				return err != nil
			}
		}
	case "mkdirall":
		// Same for directories.
		return dangling(ref, o.A)
	}
	return false
}

// dangling tells whether the path runs through a link that leads nowhere.
func dangling(ref *reffs.FS, name string) bool {
	for p := path.Clean(name); p != "." && p != "/"; p = path.Dir(p) {
		l, err := ref.Lstat(p)
		if err == nil && l.Mode()&os.ModeSymlink != 0 {
			if _, err := ref.Stat(p); err != nil {
				return true
			}
		}
	}
	return false
}

var kitSynth = kit{name: "synthfs", skip: synthSkip, mk: func() (Sys, func()) {
	return ofRoot[vroot.File]("synthfs", true, newSynth()), nothing
}}

var kitSynthMask = kit{name: "synthfs, umask 027", skip: synthSkip, umask: 0o027, mk: func() (Sys, func()) {
	m := fs.FileMode(0o027)
	r := synthfs.NewRoot("synth", &synthfs.Option{Umask: &m})
	_ = r.Chmod(".", 0o755)
	return ofRoot[vroot.File]("synthfs", true, r), nothing
}}

var kitSynthSub = kit{name: "synthfs sub-root", skip: synthSkip, mk: func() (Sys, func()) {
	r := newSynth()
	seed(r, []string{"out=secret", "sub/", "sub/in/"})
	s, err := r.OpenRoot("sub/in")
	if err != nil {
		panic(err)
	}
	return ofRoot[vroot.File]("synthfs sub-root", true, s), nothing
}}

var kitNorm = kit{name: "PathNormalizerRoot(ref)", anyDot: true, mk: func() (Sys, func()) {
	return ofRoot[vroot.File]("norm", true, vroot.NewPathNormalizerRoot[vroot.File](reffs.New())), nothing
}}

var kitLocal = kit{name: "PathLocalizerRoot(ref)", anyDot: true, mk: func() (Sys, func()) {
	return ofRoot[vroot.File]("local", true, vroot.NewPathLocalizerRoot[vroot.File](reffs.New())), nothing
}}

var kitPrefix = kit{name: "PathPrefixFs(ref)", anyDot: true, mk: func() (Sys, func()) {
	r := reffs.New()
	_ = r.MkdirAll("p/q", 0o755)
	w, err := vroot.NewPathPrefixFs[vroot.File](r, "p/q")
	if err != nil {
		panic(err)
	}
	return Sys{Fs: w, Label: "prefix", Cleans: true}, nothing
}, skip: func(ref *reffs.FS, o Op) bool {
	// Not a containment boundary: links may lead out of the prefix.
	return kitOsFs.skip(ref, o)
}}

var kitSub = kit{name: "sub-root(ref)", mk: func() (Sys, func()) {
	r := reffs.New()
	_ = r.MkdirAll("p", 0o755)
	s, err := r.OpenRoot("p")
	if err != nil {
		panic(err)
	}
	return ofRef(s), nothing
}}

// same compares results. Two failures of an operation that could fail for
// several reasons need not name the same one.
func same(s Sys, o Op, want, got string) bool {
	if want == got {
		return true
	}
	if !failed(want) || !failed(got) {
		return false
	}
	if !s.Cleans && want == "escape" && got == "notexist" {
		// A path with more ".." than parents whose early components are missing.
		return true
	}
	if want == "exist" {
		// "Taken" is what exclusive creation is used for; that the root is there
		// goes without saying.
		taken := o.A
		if o.Kind == "link" {
			taken = o.B
		}
		switch o.Kind {
		case "link", "symlink", "open":
			return path.Clean(taken) == "."
		}
	}
	if o.Kind == "link" && want == "notexist" && got == "escape" {
		return true
	}
	return want == "fail" || got == "fail" || o.Kind == "rename"
}

func failed(s string) bool {
	switch s {
	case "escape", "notexist", "notempty", "exist", "closed", "loop", "fail":
		return true
	}
	return strings.HasPrefix(s, "errno:")
}

func cleaned(s Sys, o Op) Op {
	if !s.Cleans {
		return o
	}
	o.A = path.Clean(o.A)
	if o.B != "" && o.Kind != "symlink" {
		o.B = path.Clean(o.B)
	}
	return o
}

// sequences compares k with the reference over every sequence of ops.
func sequences(k kit, trees [][]string, ops []Op, depth int, dedup bool) func(c *core.C) {
	return func(c *core.C) {
		tree := trees[c.Choose(len(trees))]
		s, done := k.mk()
		defer done()
		ref := reffs.New()
		seed(ref, tree)
		seed(s, tree)
		if k.umask != 0 {
			unmask(ref, s)
		}
		c.Logf("%s over %v", k.name, tree)
		for i := 0; i < depth; i++ {
			o := ops[c.Choose(len(ops))]
			if o.Kind == "openroot" && s.Sub == nil {
				c.Prune()
			}
			if k.skip != nil && k.skip(ref, cleaned(s, o)) {
				c.Prune()
			}
			c.Step()
			if o.Kind == "removeall" && s.Cleans && strings.HasSuffix(o.A, "/.") {
				// os.RemoveAll refuses these before cleaning; whether a cleaning wrapper
				// does is its own business, so only the refusal is checked.
				if k.anyDot {
					c.Prune()
				}
				if got := apply(s, o, k.fine); !failed(got) {
					c.Fail("result:"+k.name+":"+o.String(), "%s: %v gives %q, os.RemoveAll refuses it", k.name, o, got)
				}
				return
			}
			want := apply(ofRef(ref), k.masked(cleaned(s, o)), k.fine)
			if o.Kind == "create" && k.umask != 0 {
				// Create asks for 0666.
				if fi, err := ref.Stat(path.Clean(o.A)); err == nil && fi.Mode().Perm() == 0o666 {
					_ = ref.Chmod(path.Clean(o.A), 0o666&^k.umask)
				}
			}
			got := apply(s, o, k.fine)
			c.Logf("%v: %s", o, got)
			if !same(s, o, want, got) {
				c.Fail("result:"+k.name+":"+o.String(), "%s: %v gives %q, a directory gives %q\ntree before was reached by %s", k.name, o, got, want, c.History())
			}
			if !c.Fresh() {
				continue
			}
			w, g := k.views(ref, s)
			if w != g {
				c.Fail("tree:"+k.name+":"+o.String(), "%s after %v shows\n%s\na directory shows\n%s", k.name, o, g, w)
			}
			if dedup && !c.Visit(k.name+w+rawOrder(s), depth-i-1) {
				return
			}
		}
		c.Distinct(dump(ofRef(ref), false))
	}
}

// unmask gives s the modes ref has.
func unmask(ref *reffs.FS, s Sys) {
	var walk func(n *reffs.Node, p string)
	walk = func(n *reffs.Node, p string) {
		if n.Mode&fs.ModeSymlink == 0 {
			_ = s.Chmod(p, n.Mode.Perm())
		}
		for _, k := range reffs.Names(n) {
			walk(n.Kids[k], path.Join(p, k))
		}
	}
	walk(ref.Root, ".")
}

// rawOrder is the listing order, part of the hidden state.
func rawOrder(s Sys) string {
	f, err := s.Open(".")
	if err != nil {
		return ""
	}
	defer f.Close()
	ns, _ := f.Readdirnames(-1)
	return strings.Join(ns, ",")
}

var oddPaths = []string{
	"", ".", "./a", "a/", "a/.", "a//x", "a/./x", "a/../b", "l/../b", "l/..", "a/x/", "a/x/..", "/a", "..", "../a", "a/../../b", "a/..", "l/.", "l/", "b/x/..", "nope/..", "nope/../a",
}

// flagOps opens everything with every combination of flags that POSIX gives a
// meaning, and writes.
func flagOps() []Op {
	var ops []Op
	for _, p := range []string{"a", "a/x", "b", "b/x", "l", "nope"} {
		for _, acc := range []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR} {
			for m := range 16 {
				f := acc
				for i, b := range []int{os.O_APPEND, os.O_CREATE, os.O_EXCL, os.O_TRUNC} {
					if m>>i&1 != 0 {
						f |= b
					}
				}
				if f&os.O_EXCL != 0 && f&os.O_CREATE == 0 || f&os.O_TRUNC != 0 && acc == os.O_RDONLY {
					continue // left open by POSIX
				}
				ops = append(ops, Op{Kind: "open", A: p, Flag: f, Mode: 0o640}, Op{Kind: "open", A: p, Flag: f, Mode: 0o640, Data: "w"})
			}
		}
	}
	return ops
}

// oddOps runs every operation on every unusual path.
func oddOps() []Op {
	var ops []Op
	for _, p := range oddPaths {
		for _, k := range []string{"mkdir", "mkdirall", "create", "read", "readdir", "listdir", "readfile", "stat", "lstat", "readlink", "remove", "removeall", "chmod", "chtimes", "openroot"} {
			o := Op{Kind: k, A: p}
			if k == "mkdir" || k == "mkdirall" || k == "chmod" {
				o.Mode = 0o755
			}
			if k == "create" {
				o.Data = "z"
			}
			ops = append(ops, o)
		}
		ops = append(ops, Op{Kind: "open", A: p, Flag: os.O_WRONLY | os.O_CREATE | os.O_EXCL, Mode: 0o600, Data: "q"},
			Op{Kind: "symlink", A: p, B: "a"})
		for _, q := range []string{"b", "new", "a/x"} {
			ops = append(ops, Op{Kind: "rename", A: p, B: q}, Op{Kind: "rename", A: q, B: p}, Op{Kind: "link", A: p, B: q}, Op{Kind: "link", A: q, B: p})
		}
	}
	return ops
}

func init() {
	core.Register(&core.Property{
		ID: "V05", Unpriv: true,
		Init: func() error { syscall.Umask(0); return nil },
		Rule: "every operation of every sequence up to the bound has the result, and leaves the tree, a plain directory tree has; the directory tree is the in-memory reference, which scenario \"kernel\" compares with the kernel on the same sequences",
		Assumptions: []string{
			"reference file system = in-memory POSIX tree, itself compared with the kernel (os.Root on tmpfs) over the same operation sequences",
			"synthfs: hard links of links, shared metadata of hard links and creation through dangling links are outside the property (documented or deliberate differences)",
			"umask 0, one user; ownership is not compared",
		},
		Scenarios: func(th bool) []core.Scenario {
			ops := mutators()
			odd := oddOps()
			var out []core.Scenario
			seq := func(tag string, k kit, trees [][]string, ops []Op, depth int, dedup bool) {
				out = append(out, core.Scenario{
					Name:  tag + ": " + k.name,
					Bound: bound(len(trees), len(ops), depth, dedup),
					Body:  sequences(k, trees, ops, depth, dedup),
				})
			}
			kd, sd := 2, 3
			if th {
				kd, sd = 3, 4
			}
			seq("kernel odd paths", kitOsRoot, startTrees, odd, 1, false)
			seq("odd paths", kitSynth, startTrees, odd, 1, false)
			seq("odd paths", kitSynthSub, startTrees, odd, 1, false)
			seq("odd paths", kitNorm, startTrees, odd, 1, false)
			seq("odd paths", kitLocal, startTrees, odd, 1, false)
			seq("odd paths", kitPrefix, startTrees, odd, 1, false)
			seq("odd paths", kitOsFs, startTrees, odd, 1, false)
			for _, k := range []kit{kitOsRoot, kitOsFs, kitSynth, kitSynthMask, kitSynthSub, kitNorm, kitLocal, kitPrefix} {
				seq("open flags", k, startTrees[1:], flagOps(), 1, false)
			}
			seq("kernel", kitOsRoot, startTrees, ops, kd, false)
			seq("sequences", kitOsFs, startTrees, ops, kd, false)
			seq("kernel deep", kitOsRoot, startTrees, ops, kd+1, true)
			seq("deep", kitOsFs, startTrees, ops, kd+1, true)
			seq("sequences", kitSynthSub, startTrees[1:], ops, 2, false)
			seq("sequences", kitSynthMask, startTrees[:2], ops, 2, false)
			seq("sequences", kitPrefix, startTrees[1:], ops, 2, false)
			seq("sequences", kitNorm, startTrees[1:], ops, 2, false)
			seq("sequences", kitSub, startTrees[1:], ops, 2, false)
			seq("sequences", kitSynth, startTrees, ops, sd, false)
			if th {
				seq("deep kernel", kitOsRoot, startTrees, ops, 4, true)
			}
			seq("deep", kitSynth, startTrees, ops, sd+2, true)
			return out
		},
	})
}
