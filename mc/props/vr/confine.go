package vr

import (
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// world is a confined file system inside a larger one.
type world struct {
	s     Sys
	outer vroot.Fs[vroot.File] // the larger one; s is its directory "root"
	abs   string               // prefix turning an outer path into an absolute link target
	seed  func(lines []string) // fills the confined directory, if not through the outer file system
	done  func()
}

const canary = "CANARY"

var outside = []string{"secret=" + canary, "dir/", "dir/s=" + canary, "root/"}

// inTree is the confined tree, without its links.
var inTree = []string{"a/", "a/f=inner", "b=file"}

// box makes a world: how the outer file system is made and how the confined one
// is derived from it.
type box struct {
	name  string
	heavy bool // real directories
	ro    bool // read-only
	// lexical boxes promise nothing about links.
	lexical bool
	skip    func(ref *reffs.FS, o Op) bool
	mk      func() world
}

func osWorld(wrap func(r *osfs.Root, d string) Sys) world {
	d := scratchDir()
	out := newOsRoot(d)
	seed(vroot.Widen[*osfs.File](out), outside)
	r := newOsRoot(filepath.Join(d, "root"))
	s := wrap(r, d)
	return world{s: s, outer: vroot.Widen[*osfs.File](out), abs: d + "/", done: func() { _ = s.Close(); _ = r.Close(); _ = out.Close(); dropDir(d) }}
}

func synthWorld(wrap func(r *synthRoot) Sys) world {
	out := newSynth()
	seed(out, outside)
	r, err := out.OpenRoot("root")
	if err != nil {
		panic(err)
	}
	return world{s: wrap(r), outer: out, abs: "/", done: nothing}
}

func refWorld(wrap func(outer, r *reffs.FS) Sys) world {
	out := reffs.New()
	seed(out, outside)
	r, err := out.OpenRoot("root")
	if err != nil {
		panic(err)
	}
	return world{s: wrap(out, r), outer: out, abs: "/", done: nothing}
}

// ovlWorld is a sub-root of a stack whose tree lies in its top or in a lower.
func ovlWorld(low bool, wrap func(r *overlayfs.Fs) Sys) world {
	rest := newLayer(1, !low, outside)
	plainModes(rest.content())
	w := world{abs: "/"}
	st := stack{newLayer(0, true, nil), rest}
	if !low {
		st = stack{rest, newLayer(1, false, []string{"root/", "other/"})}
	}
	o, err := st.mount(nil)
	if err != nil {
		panic(err)
	}
	if low {
		w.seed = func(lines []string) {
			in, err := rest.fs.OpenRoot("root")
			if err != nil {
				panic(err)
			}
			seed(in, lines)
		}
	}
	r, err := o.OpenRoot("root")
	if err != nil {
		panic(err)
	}
	w.s, w.outer = wrap(r), o
	w.done = func() { _ = r.Close(); _ = o.Close() }
	return w
}

func ovlConfineSkip(low bool) func(ref *reffs.FS, o Op) bool {
	return func(ref *reffs.FS, o Op) bool {
		switch o.Kind {
		case "rename":
			a, b := reffs.Lookup(ref, o.A, false), reffs.Lookup(ref, o.B, false)
			return a != nil && (a == b && path.Clean(o.A) != path.Clean(o.B) || low && a.Mode.IsDir())
		case "mkdirall":
			return dangling(ref, o.A)
		case "open":
			return appendsDir(ref, o)
		}
		return false
	}
}

func boxes() []box {
	return []box{
		{name: "overlayfs sub-root, in the top", skip: ovlConfineSkip(false), mk: func() world { return ovlWorld(false, ofOverlay) }},
		{name: "overlayfs sub-root, in a lower", skip: ovlConfineSkip(true), mk: func() world { return ovlWorld(true, ofOverlay) }},
		{name: "osfs.Root", heavy: true, skip: kitOsRoot.skip, mk: func() world {
			return osWorld(func(r *osfs.Root, d string) Sys { return ofRoot[*osfs.File, *osfs.Root]("osfs.Root", false, r) })
		}},
		{name: "PathNormalizerRoot(osfs.Root)", heavy: true, skip: kitOsRoot.skip, mk: func() world {
			return osWorld(func(r *osfs.Root, d string) Sys {
				return ofRoot[*osfs.File]("norm", true, vroot.NewPathNormalizerRoot[*osfs.File](r))
			})
		}},
		{name: "ReadOnlyRoot(osfs.Root)", heavy: true, ro: true, skip: kitOsRoot.skip, mk: func() world {
			return osWorld(func(r *osfs.Root, d string) Sys {
				return ofRoot[*vroot.ReadOnlyFile]("ro", false, vroot.NewReadOnlyRoot[*osfs.File](r))
			})
		}},
		{name: "FromIoFs(ToIoFsRoot(osfs.Root))", heavy: true, ro: true, skip: kitOsRoot.skip, mk: func() world {
			return osWorld(func(r *osfs.Root, d string) Sys {
				return Sys{Fs: vroot.FromIoFs(vroot.ToIoFsRoot[*osfs.File](r).(fs.ReadLinkFS), "x"), Cleans: true}
			})
		}},
		{name: "osfs.Fs", heavy: true, lexical: true, skip: kitOsFs.skip, mk: func() world {
			return osWorld(func(r *osfs.Root, d string) Sys {
				f, err := osfs.NewFs(filepath.Join(d, "root"))
				if err != nil {
					panic(err)
				}
				return Sys{Fs: vroot.Widen[*osfs.File](f), Cleans: true, Sub: func(n string) (Sys, error) {
					r, err := f.OpenRoot(n)
					if err != nil {
						return Sys{}, err
					}
					return ofRoot[*osfs.File, *osfs.Root]("osfs.Root", false, r), nil
				}}
			})
		}},
		{name: "synthfs sub-root", skip: synthSkip, mk: func() world {
			return synthWorld(func(r *synthRoot) Sys { return ofRoot[vroot.File]("synth", true, r) })
		}},
		{name: "PathLocalizerRoot(synthfs sub-root)", skip: synthSkip, mk: func() world {
			return synthWorld(func(r *synthRoot) Sys {
				return ofRoot[vroot.File]("local", true, vroot.NewPathLocalizerRoot[vroot.File](r))
			})
		}},
		{name: "ReadOnlyRoot(synthfs sub-root)", ro: true, skip: synthSkip, mk: func() world {
			return synthWorld(func(r *synthRoot) Sys {
				return ofRoot[*vroot.ReadOnlyFile]("ro", true, vroot.NewReadOnlyRoot[vroot.File](r))
			})
		}},
		{name: "ToIoFsRoot(synthfs sub-root)", ro: true, skip: synthSkip, mk: func() world {
			return synthWorld(func(r *synthRoot) Sys {
				return Sys{Fs: vroot.FromIoFs(vroot.ToIoFsRoot[vroot.File](r).(fs.ReadLinkFS), "x"), Cleans: true}
			})
		}},
		{name: "ToIoFsRoot(root).Sub", ro: true, mk: func() world {
			return refWorld(func(out, r *reffs.FS) Sys {
				s, err := fs.Sub(vroot.ToIoFsRoot[vroot.File](out), "root")
				if err != nil {
					panic(err)
				}
				return Sys{Fs: vroot.FromIoFs(s.(fs.ReadLinkFS), "x"), Cleans: true}
			})
		}},
		{name: "PathPrefixFs(ref)", lexical: true, skip: kitOsFs.skip, mk: func() world {
			return refWorld(func(out, r *reffs.FS) Sys {
				w, err := vroot.NewPathPrefixFs[vroot.File](out, "root")
				if err != nil {
					panic(err)
				}
				return Sys{Fs: w, Cleans: true}
			})
		}},
		{name: "ToIoFs(ref).Sub", lexical: true, ro: true, skip: kitOsFs.skip, mk: func() world {
			return refWorld(func(out, r *reffs.FS) Sys {
				s, err := fs.Sub(vroot.ToIoFs[vroot.File](out), "root")
				if err != nil {
					panic(err)
				}
				return Sys{Fs: vroot.FromIoFs(s.(fs.ReadLinkFS), "x"), Cleans: true}
			})
		}},
		{name: "FromIoFs(os.DirFS)", lexical: true, ro: true, heavy: true, skip: kitOsFs.skip, mk: func() world {
			return osWorld(func(r *osfs.Root, d string) Sys {
				return Sys{Fs: vroot.FromIoFs(os.DirFS(filepath.Join(d, "root")).(fs.ReadLinkFS), "x"), Cleans: true}
			})
		}},
	}
}

// outerDump describes everything but the confined directory's inside.
func outerDump(w world) string {
	var b strings.Builder
	var walk func(p string)
	walk = func(p string) {
		fi, err := w.outer.Lstat(p)
		if err != nil {
			fmt.Fprintf(&b, "%s %v\n", p, err)
			return
		}
		if p == "root" {
			// Its mode is the confined root's own.
			b.WriteString("root\n")
			return
		}
		fmt.Fprintf(&b, "%s %v", p, fi.Mode())
		if !fi.IsDir() {
			fmt.Fprintf(&b, " %v %s", fi.ModTime().UnixNano(), apply(Sys{Fs: w.outer}, Op{Kind: "read", A: p}, true))
		}
		b.WriteString("\n")
		if !fi.IsDir() {
			return
		}
		es, err := vroot.ReadDir(w.outer, p)
		if err != nil {
			fmt.Fprintf(&b, "%v\n", err)
		}
		for _, e := range es {
			walk(path.Join(p, e.Name()))
		}
	}
	walk(".")
	return b.String()
}

// linkTargets are what a link inside the root may say; ABS is the outer
// directory as an absolute path.
var linkTargets = []string{"-", "a", "b", ".", "..", "../secret", "../dir/s", "a/..", "a/../..", "a/../../secret", "../root/b", "ABS/secret", "ABS/root/b", "l", "m", "a/m", "../l", "../../secret", "../b", "f", "./../..", "a/f/.."}

var readKinds = []string{"read", "readdir", "listdir", "readfile", "stat", "lstat", "readlink", "openroot"}

func writeOps(p string) []Op {
	ops := []Op{
		{Kind: "create", A: p, Data: "z"},
		{Kind: "open", A: p, Flag: os.O_WRONLY | os.O_CREATE | os.O_EXCL, Mode: 0o600, Data: "q"},
		{Kind: "open", A: p, Flag: os.O_WRONLY | os.O_APPEND, Data: "w"},
		{Kind: "open", A: p, Flag: os.O_RDWR | os.O_TRUNC},
		{Kind: "mkdir", A: p, Mode: 0o755},
		{Kind: "mkdirall", A: p, Mode: 0o755},
		{Kind: "remove", A: p},
		{Kind: "removeall", A: p},
		{Kind: "symlink", A: p, B: "a"},
		{Kind: "chmod", A: p, Mode: 0o711},
		{Kind: "chown", A: p},
		{Kind: "lchown", A: p},
		{Kind: "chtimes", A: p},
	}
	for _, q := range []string{"b", "new", "a/f"} {
		ops = append(ops, Op{Kind: "rename", A: p, B: q}, Op{Kind: "rename", A: q, B: p}, Op{Kind: "link", A: p, B: q}, Op{Kind: "link", A: q, B: p})
	}
	return ops
}

// comps builds every path of up to n components.
func compPaths(n int) []string {
	base := []string{"a", "f", "l", "m", "b", "..", ".", "secret", "root"}
	out := []string{"", "/", "/a"}
	cur := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range cur {
			for _, c := range base {
				q := c
				if p != "" {
					q = p + "/" + c
				}
				next = append(next, q)
			}
		}
		out = append(out, next...)
		cur = next
	}
	return append(out, "a/", "l/", "..//b", "a//f", "l/../", "../")
}

func (w world) place(l, m string) []string {
	var links []string
	for _, x := range [][2]string{{"l", l}, {"a/m", m}} {
		if x[1] == "-" {
			continue
		}
		links = append(links, x[0]+"->"+strings.Replace(x[1], "ABS/", w.abs, 1))
	}
	return append(append([]string(nil), inTree...), links...)
}

// sub gives the Fs of the confined directory for seeding: the outer one under
// "root".
func seedInner(w world, lines []string) {
	if w.seed != nil {
		w.seed(lines)
		return
	}
	p, err := vroot.NewPathPrefixFs(w.outer, "root")
	if err != nil {
		panic(err)
	}
	seed(p, lines)
}

// confined runs every operation on one path in one link configuration.
func confined(bx box, paths []string, targets []string, pairs bool) func(c *core.C) {
	return func(c *core.C) {
		p := paths[c.Choose(len(paths))]
		l := targets[c.Choose(len(targets))]
		m := "-"
		if pairs {
			m = targets[c.Choose(len(targets))]
		}
		var w world
		var ref *reffs.FS
		var before string
		fresh := func() {
			if w.done != nil {
				w.done()
			}
			w = bx.mk()
			lines := w.place(l, m)
			seedInner(w, lines)
			ref = reffs.New()
			seed(ref, lines)
			before = outerDump(w)
		}
		fresh()
		defer func() { w.done() }()
		c.Logf("%s, l -> %s, a/m -> %s, path %q", bx.name, l, m, p)
		var ops []Op
		for _, k := range readKinds {
			ops = append(ops, Op{Kind: k, A: p})
		}
		ops = append(ops, writeOps(p)...)
		for _, o := range ops {
			if o.Kind == "openroot" && w.s.Sub == nil {
				continue
			}
			c.Step()
			o2 := cleaned(w.s, o)
			if o.Kind == "removeall" && (path.Clean(p) == "/" || strings.HasSuffix(p, "/.") || p == ".") {
				// Refused for the dot before anything else is looked at.
				if got := apply(w.s, o, false); !failed(got) && !bx.lexical && !strings.HasPrefix(bx.name, "Path") && !strings.HasPrefix(bx.name, "overlayfs") {
					c.Fail("result:"+bx.name+":"+o.String(), "%s: %v gives %q, os.RemoveAll refuses it", bx.name, o, got)
				}
				fresh()
				continue
			}
			escapes := false
			var want string
			if bx.ro && !isRead(o.Kind) {
				got := apply(w.s, o, false)
				if !failed(got) {
					c.Fail("result:"+bx.name+":"+o.String(), "%s: %v gives %q through a read-only file system", bx.name, o, got)
				}
			} else if bx.lexical && leaves(o) {
				// Whatever the links say.
				got := apply(w.s, o, false)
				if strings.Contains(got, canary) || !failed(got) {
					c.Fail("sentinel:"+bx.name+":"+o.String(), "%s: %v leads out of the root and gives %q", bx.name, o, got)
				}
				if got != "escape" && !otherReason(o) {
					c.Fail("sentinel:"+bx.name+":"+o.String(), "%s: %v leads out of the root and gives %q, not ErrPathEscapes", bx.name, o, got)
				}
				continue
			} else if bx.skip != nil && bx.skip(ref, o2) {
				// Outside what is promised about results; still must stay inside unless
				// links may lead out.
				if bx.lexical {
					continue
				}
				got := apply(w.s, o, false)
				if strings.Contains(got, canary) {
					c.Fail("read:"+bx.name+":"+o.String(), "%s: %v reads outside the root: %q", bx.name, o, got)
				}
				if d := outerDump(w); d != before {
					c.Fail("escape:"+bx.name+":"+o.String(), "%s: %v changed what lies outside the root to\n%swas\n%s", bx.name, o, d, before)
				}
				fresh()
				continue
			} else {
				want = apply(ofRef(ref), o2, false)
				got := apply(w.s, o, false)
				escapes = want == "escape"
				if strings.Contains(got, canary) {
					c.Fail("read:"+bx.name+":"+o.String(), "%s: %v reads outside the root: %q", bx.name, o, got)
				}
				if escapes && got != "escape" && !(failed(got) && otherReason(o)) {
					c.Fail("sentinel:"+bx.name+":"+o.String(), "%s: %v leads out of the root and gives %q, not ErrPathEscapes", bx.name, o, got)
				}
				if !same(w.s, o, want, got) {
					c.Fail("result:"+bx.name+":"+o.String(), "%s: %v gives %q, expected %q", bx.name, o, got, want)
				}
			}
			if isRead(o.Kind) || failed(want) || want == "" {
				// Refused calls are checked together below.
				continue
			}
			if d := outerDump(w); d != before {
				c.Fail("escape:"+bx.name+":"+o.String(), "%s: %v changed what lies outside the root to\n%swas\n%s", bx.name, o, d, before)
			}
			fresh()
		}
		if d := outerDump(w); d != before {
			c.Fail("escape:"+bx.name+":"+p, "%s: refused operations on %q changed what lies outside the root to\n%swas\n%s", bx.name, p, d, before)
		}
		c.Distinct(p + l + m)
	}
}

// leaves tells an operation on a name that is outside by itself.
func leaves(o Op) bool {
	out := func(p string) bool { return p != "" && !filepath.IsLocal(path.Clean(p)) }
	return out(o.A) || o.Kind != "symlink" && out(o.B)
}

// otherReason: the operation has two paths, so another error may come first.
func otherReason(o Op) bool { return o.Kind == "rename" || o.Kind == "link" }

func isRead(k string) bool {
	for _, r := range readKinds {
		if r == k {
			return true
		}
	}
	return false
}

// moving interleaves operations of the outer file system with the confined one.
func moving(bx box, depth int) func(c *core.C) {
	type step struct {
		outer bool
		o     Op
	}
	var steps []step
	in := func(o ...Op) {
		for _, x := range o {
			steps = append(steps, step{false, x})
		}
	}
	out := func(o ...Op) {
		for _, x := range o {
			steps = append(steps, step{true, x})
		}
	}
	for _, t := range []string{"..", "../secret", "../../secret", "../dir", "a", "../b"} {
		in(Op{Kind: "symlink", A: "l", B: t}, Op{Kind: "symlink", A: "a/m", B: t})
	}
	in(Op{Kind: "rename", A: "a/m", B: "n"}, Op{Kind: "rename", A: "l", B: "a/m"}, Op{Kind: "rename", A: "a", B: "l"},
		Op{Kind: "mkdir", A: "c", Mode: 0o755}, Op{Kind: "rename", A: "a", B: "c/a"}, Op{Kind: "link", A: "l", B: "a/n"})
	out(Op{Kind: "rename", A: "root", B: "dir/root"}, Op{Kind: "rename", A: "root/a", B: "dir/a"}, Op{Kind: "rename", A: "dir", B: "root/dir"},
		Op{Kind: "symlink", A: "root/l", B: "../secret"}, Op{Kind: "removeall", A: "root/a"})
	probes := []string{"l", "l/secret", "l/s", "a/m", "a/m/s", "a/m/secret", "n", "n/secret", "a/..", "a/../../secret", "c/a/m", "c/a/m/secret", "..", "../secret", "a/../b", "dir/s", "l/f"}
	return func(c *core.C) {
		w := bx.mk()
		defer w.done()
		seedInner(w, inTree)
		refOut := reffs.New()
		seed(refOut, outside)
		ref, err := refOut.OpenRoot("root")
		if err != nil {
			panic(err)
		}
		seed(ref, inTree)
		moved := false
		for i := 0; i < depth; i++ {
			st := steps[c.Choose(len(steps))]
			c.Step()
			if st.outer {
				if bx.ro && st.o.Kind == "symlink" {
					c.Prune()
				}
				a := apply(Sys{Fs: w.outer}, st.o, false)
				b := apply(ofRef(refOut), st.o, false)
				c.Logf("outside: %v: %s (reference %s)", st.o, a, b)
				if failed(a) || failed(b) {
					c.Prune()
				}
				moved = true
				continue
			}
			if bx.skip != nil && bx.skip(ref, cleaned(w.s, st.o)) {
				c.Prune()
			}
			want := apply(ofRef(ref), cleaned(w.s, st.o), false)
			got := apply(w.s, st.o, false)
			c.Logf("%v: %s", st.o, got)
			if !same(w.s, st.o, want, got) && !bx.ro {
				c.Fail("result:"+bx.name+":"+st.o.String(), "%s: %v gives %q, expected %q after %s", bx.name, st.o, got, want, c.History())
			}
		}
		if !c.Fresh() {
			return
		}
		_ = moved
		before := outerDump(w)
		for _, p := range probes {
			for _, k := range []string{"read", "readdir", "stat", "create", "mkdirall"} {
				o := Op{Kind: k, A: p, Data: "", Mode: 0}
				if k == "mkdirall" {
					o.Mode = 0o755
				}
				if bx.skip != nil && bx.skip(ref, cleaned(w.s, o)) {
					continue
				}
				r2 := refOut.Clone()
				sub, err := r2.OpenRoot(rootPath(refOut, ref))
				if err != nil {
					return
				}
				want := apply(ofRef(sub), cleaned(w.s, o), false)
				if !isRead(k) && (!failed(want) || bx.ro) {
					// Mutations that succeed are the sequence scenarios' business; here only
					// those that must be refused are tried.
					continue
				}
				got := apply(w.s, o, false)
				if strings.Contains(got, canary) && !strings.Contains(want, canary) {
					c.Fail("read:"+bx.name+":"+p, "%s: %v reads outside the root: %q after %s", bx.name, o, got, c.History())
				}
				if !same(w.s, o, want, got) {
					c.Fail("result:"+bx.name+":"+o.String(), "%s: %v gives %q, expected %q after %s", bx.name, o, got, want, c.History())
				}
			}
		}
		if d := outerDump(w); d != before {
			c.Fail("escape:"+bx.name, "%s: the probes changed what lies outside to\n%swas\n%s", bx.name, d, before)
		}
	}
}

// rootPath finds where the sub-root's directory is now.
func rootPath(out, sub *reffs.FS) string {
	found := "\x00"
	var walk func(n *reffs.Node, p string)
	walk = func(n *reffs.Node, p string) {
		if n == sub.Root {
			found = p
		}
		for _, k := range reffs.Names(n) {
			walk(n.Kids[k], path.Join(p, k))
		}
	}
	walk(out.Root, ".")
	return found
}

func init() {
	core.Register(&core.Property{
		ID: "V01", Unpriv: true,
		Init: func() error { syscall.Umask(0); return nil },
		Rule: "for every path, link configuration and operation: nothing outside the root is read (canary contents) or changed (full snapshot of the outside), what the reference resolves outside is refused with ErrPathEscapes, and what stays inside works as in the reference",
		Assumptions: []string{
			"operations run one at a time; races of the kernel's own path walk are the standard library's business",
			"reads and writes of real directories run as an unprivileged user owning only the scratch directory",
			"file systems documented as lexical only (osfs.Fs, PathPrefixFs, FromIoFs) are checked on link configurations that stay inside",
		},
		Scenarios: func(th bool) []core.Scenario {
			var out []core.Scenario
			few := []string{"-", "a", "..", "../secret", "a/..", "a/../../secret", "../root/b", "ABS/secret", "ABS/root/b", "m", "../../secret"}
			for _, bx := range boxes() {
				n, targets := 2, few
				if th {
					n, targets = 3, linkTargets
					if bx.heavy {
						n = 2
					}
				} else if bx.name == "synthfs sub-root" {
					n = 3
				}
				ps := compPaths(n)
				out = append(out, core.Scenario{
					Name:  "paths: " + bx.name,
					Bound: fmt.Sprintf("%d paths of up to %d components, %d targets for each of two links, every read and write operation", len(ps), n, len(targets)),
					Body:  confined(bx, ps, targets, true),
				})
				if bx.heavy && th {
					ps := compPaths(4)
					out = append(out, core.Scenario{
						Name:  "long paths: " + bx.name,
						Bound: fmt.Sprintf("%d paths of up to 4 components, %d targets for one link, every read and write operation", len(ps), len(linkTargets)),
						Body:  confined(bx, ps, linkTargets, false),
					})
				}
				if bx.lexical || bx.ro {
					continue
				}
				d := 3
				if bx.heavy && !th {
					d = 2
				}
				out = append(out, core.Scenario{
					Name:  "moving: " + bx.name,
					Bound: fmt.Sprintf("every sequence of %d operations inside and outside (links made, links and directories moved), then every probe", d),
					Body:  moving(bx, d),
				})
			}
			return out
		},
	})
}
