package vr

import (
	"errors"
	"fmt"
	"io/fs"
	"path"
	"strings"
	"syscall"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// visit is one callback.
type visit struct {
	path, real string
	what       string // entry, or "error"
}

func (v visit) String() string { return fmt.Sprintf("%s (%s) %s", v.path, v.real, v.what) }

// reaction is what the callback returns at its n-th call.
type reaction struct {
	at  int
	err error
}

var errStop = errors.New("callback stops")

// modelWalk is the walk the documentation describes, on the reference tree.
type modelWalk struct {
	f       *reffs.FS
	resolve bool
	// faulty is the entry whose Lstat (or, for a directory, listing) fails.
	fault string
	kind  string
	re    reaction
	out   []visit
	stack []string // real paths of the directories being walked
}

func (w *modelWalk) fn(v visit) error {
	w.out = append(w.out, v)
	if len(w.out)-1 == w.re.at {
		return w.re.err
	}
	return nil
}

// canon resolves real to the symlink-free path of what it names.
func canon(f *reffs.FS, p string, n *reffs.Node) string {
	found := ""
	var walk func(d *reffs.Node, q string)
	walk = func(d *reffs.Node, q string) {
		if d == n && (found == "" || p == q) {
			found = q
		}
		for _, k := range reffs.Names(d) {
			walk(d.Kids[k], path.Join(q, k))
		}
	}
	walk(f.Root, ".")
	return found
}

func (w *modelWalk) run(root string) error {
	n := w.node(root, false)
	var err error
	if n == nil || w.kind == "lstat" && w.fault == root {
		err = w.fn(visit{root, root, "error"})
	} else {
		c := path.Clean(root)
		err = w.walk(c, c, n)
	}
	if err == vroot.SkipDir || err == vroot.SkipAll {
		return nil
	}
	return err
}

func (w *modelWalk) node(p string, follow bool) *reffs.Node { return reffs.Lookup(w.f, p, follow) }

func (w *modelWalk) walk(virt, real string, n *reffs.Node) error {
	if w.resolve && n.Mode&fs.ModeSymlink != 0 {
		t := w.node(real, true)
		if t == nil {
			return w.fn(visit{virt, real, "error"})
		}
		real, n = canon(w.f, real, t), t
	}
	err := w.fn(visit{virt, real, kindOf(n)})
	if err != nil || !n.Mode.IsDir() {
		if err == vroot.SkipDir && n.Mode.IsDir() {
			err = nil
		}
		return err
	}
	for _, s := range w.stack {
		if s == real {
			return nil
		}
	}
	w.stack = append(w.stack, real)
	defer func() { w.stack = w.stack[:len(w.stack)-1] }()
	if w.kind == "readdir" && w.fault == virt {
		err := w.fn(visit{virt, real, "error"})
		if err == vroot.SkipDir {
			err = nil
		}
		return err
	}
	for _, k := range reffs.Names(n) {
		cv, cr := path.Join(virt, k), path.Join(real, k)
		if w.kind == "lstat" && w.fault == cv {
			if err := w.fn(visit{cv, cr, "error"}); err != nil && err != vroot.SkipDir {
				return err
			}
			continue
		}
		if err := w.walk(cv, cr, n.Kids[k]); err != nil {
			if err == vroot.SkipDir {
				return nil
			}
			return err
		}
	}
	return nil
}

func kindOf(n *reffs.Node) string {
	switch {
	case n.Mode.IsDir():
		return "dir"
	case n.Mode&fs.ModeSymlink != 0:
		return "link"
	}
	return "file"
}

func infoKind(fi fs.FileInfo) string {
	switch {
	case fi == nil:
		return "error"
	case fi.IsDir():
		return "dir"
	case fi.Mode()&fs.ModeSymlink != 0:
		return "link"
	}
	return "file"
}

var walkTargets = []string{"-", "a", ".", "a/d", "a/f", "..", "../b", "b", "l", "m", "nope", "a/m", "d", "../a", "f", "a/d/../f"}

var walkReactions = []error{vroot.SkipDir, vroot.SkipAll, errStop}

// walks compares WalkDir with the model.
func walks(mk func() (Sys, *reffs.FS, func()), faults, deep bool) func(c *core.C) {
	return func(c *core.C) {
		lines := []string{"a/", "a/d/", "a/d/x=1", "a/f=2", "b/", "b/z=3"}
		targets := walkTargets
		if !deep {
			targets = walkTargets[:11]
		}
		for _, l := range []string{"l", "a/m"} {
			if t := targets[c.Choose(len(targets))]; t != "-" {
				lines = append(lines, l+"->"+t)
			}
		}
		root := core.Pick(c, ".", "a", "l", "a/m", "nope", "a/f", "./a", "b/..")
		resolve := c.Bool()
		kind, fault := "", ""
		if faults {
			kind = core.Pick(c, "", "lstat", "readdir")
			switch kind {
			case "lstat":
				fault = core.Pick(c, ".", "a", "a/d", "a/f", "a/d/x", "b", "b/z", "l", "a/m", "l/x", "l/f")
			case "readdir":
				fault = core.Pick(c, ".", "a", "a/d", "b", "l", "a/m")
			}
		}
		s, ref, done := mk()
		defer done()
		seed(s, lines)
		model := reffs.New()
		seed(model, lines)
		if ref != nil && kind != "" {
			ref.Before = func(op reffs.Op) (int, error) {
				if kind == "lstat" && op.Name == "lstat" && op.Path == fault || kind == "readdir" && op.Name == "f.readdir" && op.Path == fault {
					return 0, syscall.EIO
				}
				return 0, nil
			}
		}
		c.Logf("%s: %v, walk %q, resolve=%v, failing %s %q", s.Label, lines, root, resolve, kind, fault)
		run := func(re reaction) ([]visit, error) {
			c.Step()
			var out []visit
			var seen error
			err := vroot.WalkDir(s.Fs, root, &vroot.WalkOption{ResolveSymlink: resolve}, func(p, real string, fi fs.FileInfo, err error) error {
				if len(out) > 300 {
					c.Fail("endless:"+s.Label, "the walk of %v from %q does not end", lines, root)
				}
				what := infoKind(fi)
				if err != nil {
					what = "error"
				} else if fi == nil {
					c.Fail("nil:"+s.Label, "no info and no error for %q", p)
				}
				if err == nil && resolve && what == "link" {
					c.Fail("unresolved:"+s.Label, "%q is reported as a link although links are resolved", p)
				}
				out = append(out, visit{p, cleanReal(real), what})
				_ = seen
				if len(out)-1 == re.at {
					return re.err
				}
				return nil
			})
			return out, err
		}
		check := func(re reaction) int {
			w := &modelWalk{f: model, resolve: resolve, kind: kind, fault: fault, re: re}
			wantErr := w.run(root)
			got, err := run(re)
			a, b := fmt.Sprint(w.out), fmt.Sprint(got)
			if a != b {
				c.Fail("visits:"+s.Label, "%s; the callback returns %v at call %d: visited\n%s\nexpected\n%s", c.History(), re.err, re.at, list(got), list(w.out))
			}
			if (wantErr == nil) != (err == nil) || wantErr != nil && !errors.Is(err, wantErr) {
				c.Fail("result:"+s.Label, "%s; the callback returns %v at call %d: result %v, expected %v", c.History(), re.err, re.at, err, wantErr)
			}
			return len(w.out)
		}
		// An entry that fails when resolved through may be met by the resolver too;
		// the model does not say how often.
		if kind != "" && resolve && resolvesThrough(model, fault) {
			c.Prune()
		}
		n := check(reaction{at: -1})
		c.Distinct(fmt.Sprint(lines, root, resolve, kind, fault, n))
		for at := 0; at < n; at++ {
			for _, e := range walkReactions {
				check(reaction{at, e})
			}
		}
	}
}

// manyLinks walks trees in which links follow one another, side by side or
// each below the one before: more of them than one path may hold, though no
// path holds more than deepest.
func manyLinks(mk func() (Sys, *reffs.FS, func()), most, deepest int) func(c *core.C) {
	return func(c *core.C) {
		chain := 1 + c.Choose(4)
		count := 1 + c.Choose(most)
		shape := core.Pick(c, "to a directory", "to a file", "nested", "below each other")
		lines := []string{"d/", "d/x=1", "d/A=2", "d/a.b=3", "d/a/", "d/a-b=4", "f=5"}
		end := "d"
		if shape == "to a file" {
			end = "f"
		}
		for i := 1; i < chain; i++ {
			l := fmt.Sprintf("c%d", i)
			lines = append(lines, l+"->"+end)
			end = l
		}
		switch shape {
		case "nested": // n00/l -> ../n01 and so on, through the chain at the end
			if count+chain > deepest {
				c.Prune()
			}
			for i := range count {
				to := fmt.Sprintf("../n%02d", i+1)
				if i == count-1 {
					to = "../" + end
				}
				lines = append(lines, fmt.Sprintf("n%02d/", i), fmt.Sprintf("n%02d/l->%s", i, to))
			}
		case "below each other": // every directory holds links and the next directory
			dir := "w"
			for i := range min(count, 12) {
				lines = append(lines, dir+"/", dir+"/l->"+strings.Repeat("../", i+1)+end, dir+"/m->l")
				dir += "/v"
			}
		default:
			lines = append(lines, "w/")
			for i := range count {
				lines = append(lines, fmt.Sprintf("w/%02d->../%s", i, end))
			}
		}
		s, _, done := mk()
		defer done()
		seed(s, lines)
		model := reffs.New()
		seed(model, lines)
		root := "w"
		if shape == "nested" {
			root = "n00"
		}
		c.Logf("%s: %d links %s, chains of %d, walk %q", s.Label, count, shape, chain, root)
		c.Step()
		w := &modelWalk{f: model, resolve: true, re: reaction{at: -1}}
		wantErr := w.run(root)
		var got []visit
		err := vroot.WalkDir(s.Fs, root, &vroot.WalkOption{ResolveSymlink: true}, func(p, real string, fi fs.FileInfo, err error) error {
			if len(got) > 2000 {
				c.Fail("endless:"+s.Label, "the walk does not end")
			}
			what := infoKind(fi)
			if err != nil {
				what = "error"
			}
			got = append(got, visit{p, cleanReal(real), what})
			return nil
		})
		c.Distinct(fmt.Sprint(s.Label, chain, count, shape))
		if a, b := fmt.Sprint(w.out), fmt.Sprint(got); a != b || (err == nil) != (wantErr == nil) {
			c.Fail("many:"+s.Label, "%s: visited (%v)\n%s\nexpected (%v)\n%s", c.History(), err, list(got), wantErr, list(w.out))
		}
	}
}

// resolvesThrough tells whether resolving some link looks at p.
func resolvesThrough(f *reffs.FS, p string) bool {
	bad := false
	var walk func(n *reffs.Node, q string)
	walk = func(n *reffs.Node, q string) {
		if n.Mode&fs.ModeSymlink != 0 {
			bad = true
		}
		for _, k := range reffs.Names(n) {
			walk(n.Kids[k], path.Join(q, k))
		}
	}
	walk(f.Root, ".")
	return bad
}

func list(v []visit) string {
	var s []string
	for _, x := range v {
		s = append(s, "  "+x.String())
	}
	return strings.Join(s, "\n")
}

func init() {
	core.Register(&core.Property{
		ID: "V03", Unpriv: true,
		Init: func() error { syscall.Umask(0); return nil },
		Rule: "the sequence of callbacks (path, real path, kind or error) and the result equal those of a plain recursive walk of the reference tree, for every callback reaction at every call",
		Assumptions: []string{
			"loops: a directory already being walked is reported and not entered again (documented)",
			"after a failed Lstat the walk goes on as filepath.Walk does; failures met while resolving a link are combined with link-free trees only",
		},
		Scenarios: func(th bool) []core.Scenario {
			mkRef := func() (Sys, *reffs.FS, func()) {
				f := reffs.New()
				s := ofRef(f)
				return s, f, nothing
			}
			mkSynth := func() (Sys, *reffs.FS, func()) { s, d := kitSynth.mk(); return s, nil, d }
			mkOs := func() (Sys, *reffs.FS, func()) { s, d := kitOsRoot.mk(); return s, nil, d }
			mkPre := func() (Sys, *reffs.FS, func()) { s, d := kitPrefix.mk(); return s, nil, d }
			_ = mkPre
			mkRO := func() (Sys, *reffs.FS, func()) {
				f := reffs.New()
				return Sys{Fs: readOnlyOver{vroot.Widen[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[vroot.File](f)), f}, Label: "readonly"}, f, nothing
			}
			b := "7-entry trees with two links over %d targets, 8 start paths, links resolved or not%s, every reaction (SkipDir, SkipAll, error) at every callback"
			mk := func(n string, m func() (Sys, *reffs.FS, func()), faults, deep bool) core.Scenario {
				k, x := 11, ""
				if deep {
					k = len(walkTargets)
				}
				if faults {
					x = ", Lstat or listing of any one entry failing"
				}
				return core.Scenario{Name: n, Bound: fmt.Sprintf(b, k, x), Body: walks(m, faults, deep)}
			}
			return []core.Scenario{
				mk("reference, with failures", mkRef, true, true),
				mk("synthfs", mkSynth, false, true),
				mk("osfs.Root", mkOs, false, th),
				mk("ReadOnlyFs", mkRO, false, true),
				{Name: "many links: synthfs", Bound: "1-45 links side by side, nested or below each other, chains of 1-4", Body: manyLinks(mkSynth, 45, 38)},
				{Name: "many links: osfs.Root", Bound: "likewise, at most 8 links in one path (os.Root's own limit)", Body: manyLinks(mkOs, 45, 8)},
				{Name: "many links: reference", Bound: "likewise", Body: manyLinks(mkRef, 45, 38)},
			}
		},
	})
	_ = osfs.NewFs
}

// readOnlyOver reads through the wrapper and seeds the inner.
type readOnlyOver struct {
	vroot.Fs[vroot.File]
	inner vroot.Fs[vroot.File]
}

func (r readOnlyOver) Mkdir(n string, m fs.FileMode) error { return r.inner.Mkdir(n, m) }
func (r readOnlyOver) Symlink(a, b string) error           { return r.inner.Symlink(a, b) }
func (r readOnlyOver) OpenFile(n string, f int, m fs.FileMode) (vroot.File, error) {
	if f != 0 {
		return r.inner.OpenFile(n, f, m)
	}
	return r.Fs.OpenFile(n, f, m)
}

// cleanReal: the real path of an uncleaned start path may be as given.
func cleanReal(p string) string {
	if p == "" {
		return p
	}
	return path.Clean(p)
}
