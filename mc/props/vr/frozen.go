package vr

import (
	"errors"
	"fmt"
	"hash/crc32"
	"io/fs"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// frozenFs refuses every change with an error of its own, as a medium mounted
// read-only (EROFS) or one of another user (EACCES, EPERM) does, and keeps
// account of what was asked.
type frozenFs struct {
	anyFs
	err   error
	tried *[]string
}

func (f frozenFs) no(op, name string) error {
	*f.tried = append(*f.tried, op+" "+name)
	return fsutil.WrapPathErr(op, name, f.err)
}

func (f frozenFs) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, error) {
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0 {
		return nil, f.no("open", name)
	}
	return f.anyFs.OpenFile(name, flag, perm)
}
func (f frozenFs) Create(name string) (vroot.File, error)    { return nil, f.no("open", name) }
func (f frozenFs) Mkdir(name string, _ fs.FileMode) error    { return f.no("mkdir", name) }
func (f frozenFs) MkdirAll(name string, _ fs.FileMode) error { return f.no("mkdir", name) }
func (f frozenFs) Remove(name string) error                  { return f.no("remove", name) }
func (f frozenFs) RemoveAll(name string) error               { return f.no("remove", name) }
func (f frozenFs) Rename(a, _ string) error                  { return f.no("rename", a) }
func (f frozenFs) Link(_, b string) error                    { return f.no("link", b) }
func (f frozenFs) Symlink(_, b string) error                 { return f.no("symlink", b) }
func (f frozenFs) Chmod(name string, _ fs.FileMode) error    { return f.no("chmod", name) }
func (f frozenFs) Chown(name string, _, _ int) error         { return f.no("chown", name) }
func (f frozenFs) Lchown(name string, _, _ int) error        { return f.no("chown", name) }
func (f frozenFs) Chtimes(name string, _, _ time.Time) error { return f.no("chtimes", name) }
func (f frozenFs) Close() error                              { return nil }

type freezer struct {
	name string
	mk   func(f anyFs, tried *[]string) anyFs
}

var freezers = []freezer{
	{"ReadOnlyFs", func(f anyFs, _ *[]string) anyFs { return vroot.Widen(vroot.NewReadOnlyFs(f)) }},
	{"EROFS", func(f anyFs, t *[]string) anyFs { return frozenFs{f, syscall.EROFS, t} }},
	{"EACCES", func(f anyFs, t *[]string) anyFs { return frozenFs{f, syscall.EACCES, t} }},
	{"EPERM", func(f anyFs, t *[]string) anyFs { return frozenFs{f, syscall.EPERM, t} }},
}

// frozenTop makes a history on an overlay with the default store, closes it, and
// mounts its top, now read-only, below a fresh one.
//
// The sqlite driver gives a connection it failed to open no end, and every
// opening of such a layer begins with one: the number of executions is bounded
// by the mappings a process may hold.
func frozenTop(tops []place, ops []Op, depth int, after []Op) func(c *core.C) {
	return func(c *core.C) {
		spec := composeStarts[c.Choose(len(composeStarts))]
		top := tops[c.Choose(len(tops))]
		var low []place
		for range spec.layers[1:] {
			low = append(low, placeSynth)
		}
		fr := freezers[c.Choose(len(freezers))]
		cp := compose(c, spec, top, low, false)
		over := []*overlayfs.Fs{}
		defer func() {
			for _, o := range over {
				_ = o.Close()
			}
			cp.end()
		}()
		r := cp.r
		c.Logf("%s", r.name)
		do := func(o Op) {
			if r.skip(cleaned(r.s, o)) || top.skip != nil && top.skip(r.ref, cleaned(r.s, o)) || o.Kind == "link" || o.Kind == "removeall" && strings.HasSuffix(o.A, "/.") {
				c.Prune()
			}
			c.Step()
			want := r.want(cleaned(r.s, o))
			got := apply(r.s, o, false)
			c.Logf("%v: %s", o, got)
			if !sameComposed(r.s, o, want, got) {
				c.Fail("result:"+o.String(), "%v over %s gives %q, one file system gives %q\nhistory: %s", o, r.name, got, want, c.History())
			}
		}
		for range depth {
			do(ops[c.Choose(len(ops))])
		}
		if err := r.s.Close(); err != nil {
			c.Fail("close", "Close: %v\nhistory: %s", err, c.History())
		}
		raw := rawDump(cp.top())
		var tried []string
		source := func() *overlayfs.DataSource {
			d, err := overlayfs.NewDataSourceCanonical(fr.mk(keepOpen{cp.top()}, &tried))
			if err != nil {
				c.Fail("frozen:open", "a complete layer that cannot be written (%s) cannot be opened: %v\nhistory: %s", fr.name, err, c.History())
			}
			return d
		}
		c.Logf("frozen by %s", fr.name)
		use := c.Choose(2 + len(after))
		if use == 0 {
			// As a top it is of no use, and that is said.
			d := source()
			if o, err := overlayfs.New(d, nil, nil); !errors.Is(err, overlayfs.ErrTopReadOnly) || errors.Is(err, overlayfs.ErrNotCanonical) || o != nil {
				c.Fail("frozen:top", "a layer that cannot be written (%s) as the top: %v, want ErrTopReadOnly\nhistory: %s", fr.name, err, c.History())
			}
			if err := d.Close(); err != nil {
				c.Fail("frozen:close", "closing a layer that cannot be written (%s): %v\nhistory: %s", fr.name, err, c.History())
			}
		}
		overlays := []int{0, 2, 1}[min(use, 2)]
		// As a lower it shows what it showed, to any number of overlays at once.
		for i := range overlays {
			t := newSynth()
			// The content's root is the top's own.
			if err := errors.Join(t.Mkdir("merged", 0o755), t.Chmod("merged", r.ref.Root.Mode.Perm())); err != nil {
				panic(err)
			}
			td, err := overlayfs.NewDataSourceCanonicalStore(vroot.Widen(t), newMemStore())
			if err != nil {
				panic(err)
			}
			lowers := []*overlayfs.DataSource{source()}
			for _, l := range cp.lowers {
				lowers = append(lowers, overlayfs.NewDataSource(keepOpen{l()}))
			}
			o, err := overlayfs.New(td, lowers, nil)
			if err != nil {
				c.Fail("frozen:mount", "mounting overlay %d over a layer that cannot be written (%s): %v\nhistory: %s", i, fr.name, err, c.History())
			}
			over = append(over, o)
		}
		was := dump(ofRef(r.ref), false)
		check := func(tag string) {
			want := dump(ofRef(r.ref), false)
			for i, o := range over {
				if g := dump(ofOverlay(o), false); g != want {
					c.Fail("frozen:"+tag, "%s: overlay %d over the layer that cannot be written (%s) shows\n%s\nwant\n%s\nhistory: %s", tag, i, fr.name, g, want, c.History())
				}
			}
			if g := rawDump(cp.top()); g != raw {
				c.Fail("frozen:changed", "%s changed the layer that cannot be written from\n%s\nto\n%s\nhistory: %s", tag, raw, g, c.History())
			}
		}
		check("mounting")
		if use > 1 {
			r.s = ofOverlay(over[0])
			r.pure = map[*reffs.Node]bool{}
			before := len(tried)
			do(after[use-2])
			check("a change")
			if len(tried) != before {
				c.Fail("frozen:tried", "an overlay tried to change a lower: %v\nhistory: %s", tried[before:], c.History())
			}
		}
		for i, o := range over {
			if err := o.Close(); err != nil {
				c.Fail("frozen:close", "closing overlay %d: %v\nhistory: %s", i, err, c.History())
			}
		}
		over = nil
		if g := rawDump(cp.top()); g != raw {
			c.Fail("frozen:changed", "closing changed the layer that cannot be written from\n%s\nto\n%s\nhistory: %s", raw, g, c.History())
		}
		c.Distinct(was)
		// And thawed it is the top it was.
		if use > 1 {
			return
		}
		cp.mount()
		if g := dump(r.s, false); g != was {
			c.Fail("frozen:thawed", "the layer, writable again, shows\n%s\nwant\n%s\nhistory: %s", g, was, c.History())
		}
	}
}

// halfLayers mounts layers with parts of the layout missing or taken by
// something else, writable and not.
func halfLayers(c *core.C) {
	kinds := []string{"absent", "dir", "file", "link", "dangling"}
	store := []string{"absent", "good", "empty", "text", "cut", "dir"}
	m, w, s := core.Pick(c, kinds...), core.Pick(c, kinds...), core.Pick(c, store...)
	frz := c.Choose(len(freezers) + 1)
	f := newSynth()
	put := func(name, data string) {
		if err := vroot.WriteFile(vroot.Widen(f), name, []byte(data), 0o644); err != nil {
			panic(err)
		}
	}
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	if s == "good" || s == "cut" {
		d, err := overlayfs.NewDataSourceCanonical(keepOpen{vroot.Widen(f)})
		must(err)
		must(d.Close())
		must(f.RemoveAll("merged"))
		must(f.RemoveAll("work"))
		if s == "cut" {
			b, err := vroot.ReadFile(vroot.Widen(f), "meta.sqlite3")
			must(err)
			put("meta.sqlite3", string(b[:len(b)/2]))
		}
	}
	switch s {
	case "empty":
		put("meta.sqlite3", "")
	case "text":
		put("meta.sqlite3", strings.Repeat("this is not a database, nor was it ever one. ", 40))
	case "dir":
		must(f.Mkdir("meta.sqlite3", 0o755))
	}
	must(f.Mkdir("other", 0o755))
	put("other/x", "kept")
	for i, n := range []string{"merged", "work"} {
		switch []string{m, w}[i] {
		case "dir":
			must(f.Mkdir(n, 0o755))
			put(n+"/in", "content of "+n)
		case "file":
			put(n, "a file")
		case "link":
			must(f.Symlink("other", n))
		case "dangling":
			must(f.Symlink("nowhere", n))
		}
	}
	was := rawDump(vroot.Widen(f))
	var tried []string
	var mount anyFs = keepOpen{vroot.Widen(f)}
	name := "writable"
	if frz > 0 {
		mount = freezers[frz-1].mk(mount, &tried)
		name = freezers[frz-1].name
	}
	d, err := overlayfs.NewDataSourceCanonical(mount)
	what := fmt.Sprintf("a layer (%s) with merged=%s work=%s store=%s", name, m, w, s)
	now := rawDump(vroot.Widen(f))
	taken := m == "file" || w == "file"
	isDir := func(k string) bool { return k == "dir" || k == "link" }
	c.Outcome(fmt.Sprint(err == nil))
	if frz > 0 {
		if now != was {
			c.Fail("half:changed", "opening %s changed it from\n%s\nto\n%s", what, was, now)
		}
		if good := isDir(m) && isDir(w) && s == "good"; good != (err == nil) {
			c.Fail("half:result", "opening %s gives %v", what, err)
		}
	} else {
		if !strings.Contains(now, "kept") {
			c.Fail("half:changed", "opening %s changed it from\n%s\nto\n%s", what, was, now)
		}
		bad := taken || s == "text" || s == "cut" || s == "dir" || m == "dangling" || w == "dangling"
		if bad == (err == nil) {
			c.Fail("half:result", "opening %s gives %v", what, err)
		}
		if (s == "text" || s == "cut") && err != nil {
			b1 := cutLine(was, "meta.sqlite3")
			if b2 := cutLine(now, "meta.sqlite3"); b1 != b2 {
				c.Fail("half:store", "opening %s changed the store from\n%s\nto\n%s", what, b1, b2)
			}
		}
	}
	if m == "file" || (isDir(m) && w == "file") {
		if !errors.Is(err, overlayfs.ErrNotCanonical) {
			c.Fail("half:kind", "opening %s gives %v, want ErrNotCanonical", what, err)
		}
	}
	if err != nil {
		if d != nil {
			c.Fail("half:both", "opening %s gives a source along with %v", what, err)
		}
		return
	}
	defer d.Close()
	// What was in merged/ is the content; work/ is nobody's.
	if frz == 0 {
		o, err := overlayfs.New(d, nil, nil)
		if err != nil {
			c.Fail("half:new", "an overlay on %s: %v", what, err)
		}
		if _, err := o.Lstat("in"); (err == nil) != (m == "dir") {
			c.Fail("half:content", "an overlay on %s: looking up the content gives %v", what, err)
		}
		if w == "dir" {
			if es, err := vroot.ReadDir(vroot.Widen(f), "work"); err != nil || len(es) != 0 {
				c.Fail("half:work", "an overlay on %s leaves %d files in work/ (%v)", what, len(es), err)
			}
		}
	}
}

// rawDump is the tree with long contents told by their sum.
func rawDump(f anyFs) string {
	ls := strings.Split(dump(Sys{Fs: f}, true), "\n")
	for i, l := range ls {
		if len(l) > 300 {
			ls[i] = fmt.Sprintf("%s... %d %x", strings.Fields(l)[0], len(l), crc32.ChecksumIEEE([]byte(l)))
		}
	}
	return strings.Join(ls, "\n")
}

func cutLine(s, name string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, name) {
			return l
		}
	}
	return ""
}
