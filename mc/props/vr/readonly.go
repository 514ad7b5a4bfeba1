package vr

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing/fstest"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// roWorld is a read-only view and what it shows.
type roWorld struct {
	s     Sys
	inner Sys
	snap  func() string
	done  func()
	err   error // what a refused call answers with
}

var roTree = []string{"a/", "a/f=inner", "b=file", "l->a", "a/m->../b", "e/"}

// full describes the reference tree with everything a mutation could touch.
func full(f *reffs.FS) string {
	var b strings.Builder
	var walk func(n *reffs.Node, p string)
	walk = func(n *reffs.Node, p string) {
		fmt.Fprintf(&b, "%s %v %d %d %d %d %q %s %d\n", p, n.Mode, n.UID, n.GID, n.Atime.UnixNano(), n.Mtime.UnixNano(), n.Data, n.Target, n.Ino)
		for _, k := range reffs.Names(n) {
			walk(n.Kids[k], p+"/"+k)
		}
	}
	walk(f.Root, "")
	return b.String()
}

func roWorlds() []struct {
	name string
	mk   func() roWorld
} {
	type W = struct {
		name string
		mk   func() roWorld
	}
	onRef := func(name string, wrap func(f *reffs.FS) Sys) W {
		return W{name, func() roWorld {
			f := reffs.New()
			seed(f, roTree)
			return roWorld{s: wrap(f), inner: ofRef(f), snap: func() string { return full(f) }, done: nothing, err: syscall.EROFS}
		}}
	}
	onOs := func(name string, wrap func(r *osfs.Root) Sys) W {
		return W{name, func() roWorld {
			d := scratchDir()
			r := newOsRoot(d)
			in := ofRoot[*osfs.File, *osfs.Root]("osfs", false, r)
			seed(in, roTree)
			return roWorld{s: wrap(r), inner: in, snap: func() string { return osSnap(d) }, done: func() { _ = r.Close(); dropDir(d) }, err: syscall.EROFS}
		}}
	}
	return []W{
		onRef("ReadOnlyFs", func(f *reffs.FS) Sys {
			return Sys{Fs: vroot.Widen[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[vroot.File](f))}
		}),
		onRef("ReadOnlyRoot", func(f *reffs.FS) Sys {
			return ofRoot[*vroot.ReadOnlyFile]("ro", false, vroot.NewReadOnlyRoot[vroot.File](f))
		}),
		onRef("FromIoFs(ToIoFs)", func(f *reffs.FS) Sys {
			return Sys{Fs: vroot.FromIoFs(vroot.ToIoFs[vroot.File](f).(fs.ReadLinkFS), "n"), Cleans: true}
		}),
		onRef("FromIoFs(ToIoFsRoot)", func(f *reffs.FS) Sys {
			return Sys{Fs: vroot.FromIoFs(vroot.ToIoFsRoot[vroot.File](f).(fs.ReadLinkFS), "n"), Cleans: true}
		}),
		onRef("Normalizer(ReadOnlyRoot)", func(f *reffs.FS) Sys {
			r := vroot.NewReadOnlyRoot[vroot.File](f)
			return ofRoot[*vroot.ReadOnlyFile]("x", true, vroot.NewPathNormalizerRoot[*vroot.ReadOnlyFile](r))
		}),
		onRef("PathPrefixFs(ReadOnlyFs) at .", func(f *reffs.FS) Sys {
			w, err := vroot.NewPathPrefixFs[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[vroot.File](f), ".")
			if err != nil {
				panic(err)
			}
			return Sys{Fs: vroot.Widen[*vroot.ReadOnlyFile](w), Cleans: true}
		}),
		onOs("ReadOnlyRoot(osfs.Root)", func(r *osfs.Root) Sys {
			return ofRoot[*vroot.ReadOnlyFile]("ro", false, vroot.NewReadOnlyRoot[*osfs.File](r))
		}),
		onOs("FromIoFs(ToIoFsRoot(osfs.Root))", func(r *osfs.Root) Sys {
			return Sys{Fs: vroot.FromIoFs(vroot.ToIoFsRoot[*osfs.File](r).(fs.ReadLinkFS), "n"), Cleans: true}
		}),
		onOs("FromIoFs(os.DirFS)", func(r *osfs.Root) Sys {
			return Sys{Fs: vroot.FromIoFs(os.DirFS(r.Name()).(fs.ReadLinkFS), "n"), Cleans: true}
		}),
	}
}

func osSnap(d string) string {
	var b strings.Builder
	_ = filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			fmt.Fprintf(&b, "%s %v\n", p, err)
			return nil
		}
		fi, err := e.Info()
		if err != nil {
			fmt.Fprintf(&b, "%s %v\n", p, err)
			return nil
		}
		st := fi.Sys().(*syscall.Stat_t)
		fmt.Fprintf(&b, "%s %v %d %d %d %d %d\n", p, fi.Mode(), fi.ModTime().UnixNano(), fi.Size(), st.Uid, st.Gid, st.Ino)
		if fi.Mode().IsRegular() {
			x, _ := os.ReadFile(p)
			b.Write(x)
		}
		if fi.Mode()&fs.ModeSymlink != 0 {
			x, _ := os.Readlink(p)
			b.WriteString(x)
		}
		return nil
	})
	return b.String()
}

// handleOps are the calls a file handle takes.
func handleOps() []fileCall {
	type F = vroot.File
	var out []fileCall
	for _, k := range fileCalls() {
		switch k.name {
		case "Name", "Fd", "Close":
			continue
		}
		out = append(out, k)
	}
	out = append(out,
		fileCall{name: "ReadFrom", run: func(f F) (string, error) {
			if r, ok := f.(io.ReaderFrom); ok {
				n, err := r.ReadFrom(strings.NewReader("abc"))
				return fmt.Sprint(n), err
			}
			return "0", errNoMethod
		}},
		fileCall{name: "io.Copy", run: func(f F) (string, error) {
			n, err := io.Copy(f, strings.NewReader("abc"))
			return fmt.Sprint(n), err
		}},
	)
	return out
}

var errNoMethod = fmt.Errorf("no such method: %w", syscall.EPERM)

// readOnly tries one call, or one open and up to two calls on the handle.
func readOnly(depth int) func(c *core.C) {
	return func(c *core.C) {
		ws := roWorlds()
		wk := ws[c.Choose(len(ws))]
		w := wk.mk()
		defer w.done()
		s, inner := w.s, w.inner
		before := w.snap()
		c.Logf("%s", wk.name)
		// Sub-roots stay read-only.
		if s.Sub != nil {
			for n := c.Choose(3); n > 0; n-- {
				sub, err := s.Sub(".")
				if err != nil {
					c.Fail("openroot:"+wk.name, "OpenRoot(.): %v", err)
				}
				s = sub
				c.Logf("sub-root")
			}
		}
		checkSnap := func(what string) {
			if d := w.snap(); d != before {
				c.Fail("changed:"+wk.name, "%s: %s changed the wrapped file system to\n%swas\n%s", wk.name, what, d, before)
			}
		}
		refused := func(what string, err error, want error) {
			if err == nil {
				c.Fail("accepted:"+wk.name, "%s: %s reports success", wk.name, what)
			}
			if !errors.Is(err, want) {
				c.Fail("error:"+wk.name, "%s: %s answers %v, want %v", wk.name, what, err, want)
			}
		}
		paths := []string{"a", "a/f", "b", "l", "l/f", "a/m", "new", "a/new", "e", "."}
		p := paths[c.Choose(len(paths))]
		if c.Bool() {
			q := paths[c.Choose(len(paths))]
			for _, o := range []struct {
				n   string
				run func() error
			}{
				{"Chmod", func() error { return s.Chmod(p, 0o600) }},
				{"Chown", func() error { return s.Chown(p, os.Getuid(), os.Getgid()) }},
				{"Lchown", func() error { return s.Lchown(p, os.Getuid(), os.Getgid()) }},
				{"Chtimes", func() error { return s.Chtimes(p, time.Unix(1, 0), time.Unix(2, 0)) }},
				{"Create", func() error { _, err := s.Create(p); return err }},
				{"Mkdir", func() error { return s.Mkdir(p, 0o755) }},
				{"MkdirAll", func() error { return s.MkdirAll(p, 0o755) }},
				{"Remove", func() error { return s.Remove(p) }},
				{"RemoveAll", func() error {
					if p == "." {
						return s.RemoveAll("a")
					}
					return s.RemoveAll(p)
				}},
				{"Rename", func() error { return s.Rename(p, q) }},
				{"Link", func() error { return s.Link(p, q) }},
				{"Symlink", func() error { return s.Symlink(p, q) }},
				{"WriteFile", func() error { return vroot.WriteFile(s.Fs, p, []byte("x"), 0o644) }},
			} {
				c.Step()
				what := fmt.Sprintf("%s(%q, %q)", o.n, p, q)
				refused(what, o.run(), w.err)
				checkSnap(what)
			}
			return
		}
		flag := core.Pick(c, os.O_RDONLY, os.O_WRONLY, os.O_RDWR)
		for _, b := range []int{os.O_APPEND, os.O_CREATE, os.O_EXCL, os.O_TRUNC, os.O_SYNC} {
			if c.Bool() {
				flag |= b
			}
		}
		c.Step()
		f, err := s.OpenFile(p, flag, 0o644)
		c.Logf("OpenFile(%q, %s): %v", p, flagString(flag), err)
		checkSnap(c.History())
		if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0 {
			refused(c.History(), err, w.err)
			return
		}
		if err != nil {
			if f2, err2 := inner.OpenFile(p, flag, 0o644); err2 == nil && flag&os.O_APPEND == 0 {
				_ = f2.Close()
				c.Fail("open:"+wk.name, "%s fails, the wrapped file system opens it", c.History())
			}
			return
		}
		defer f.Close()
		g, err := inner.OpenFile(p, flag, 0o644)
		if err != nil {
			c.Fail("open:"+wk.name, "%s succeeds, the wrapped file system says %v", c.History(), err)
		}
		defer g.Close()
		ks := handleOps()
		for i := 0; i < depth; i++ {
			k := ks[c.Choose(len(ks))]
			c.Step()
			got, err := k.run(f)
			c.Logf("%s: %q %v", k.name, got, err)
			checkSnap(c.History())
			if !k.read {
				refused(c.History(), err, syscall.EPERM)
				if got != "" && got != "0" {
					c.Fail("count:"+wk.name, "%s claims %s bytes", c.History(), got)
				}
				continue
			}
			if !strings.HasPrefix(wk.name, "FromIoFs") || !dirOp(k.name) {
				want, werr := k.run(g)
				if k.name == "Stat" || dirOp(k.name) {
					// FileInfo values are compared by what they say.
					if (err == nil) != (werr == nil) {
						c.Fail("read:"+wk.name, "%s; the wrapped file says %v", c.History(), werr)
					}
					continue
				}
				if (err == nil) != (werr == nil) || got != want && err == nil {
					c.Fail("read:"+wk.name, "%s; the wrapped file says %q %v", c.History(), want, werr)
				}
			} else if _, werr := k.run(g); (err == nil) != (werr == nil) {
				c.Fail("read:"+wk.name, "%s; the wrapped file says %v", c.History(), werr)
			}
		}
		if c.Fresh() {
			if a, b := dump(s, false), dump(inner, false); a != b {
				c.Fail("view:"+wk.name, "%s shows\n%s\nthe wrapped file system\n%s", wk.name, a, b)
			}
		}
	}
}

func dirOp(n string) bool { return strings.HasPrefix(n, "Read") && n != "Read" && n != "ReadAt" }

// bridge checks the io/fs side: fstest's own battery on every small tree.
func bridge(c *core.C) {
	kind := core.Pick(c, "ToIoFs(ref)", "ToIoFsRoot(ref)", "ToIoFsRoot(synthfs)", "ToIoFs(osfs.Fs)", "ToIoFsRoot(osfs.Root)", "ToIoFs(FromIoFs(ToIoFs(ref)))", "ToIoFsRoot(ref).Sub", "ToIoFs(ref).Sub", "ToIoFs(readonly)", "ToIoFs(Widen(osfs.Root))", "ToIoFs(sftpfs)", "ToIoFs(overlayfs)")
	var lines []string
	add := func(opts ...string) {
		if o := opts[c.Choose(len(opts))]; o != "" {
			lines = append(lines, strings.Split(o, " ")...)
		}
	}
	add("", "a/", "a/ a/f=", "a/ a/f=content a/g=x", "a/ a/d/ a/d/x=1", "a=file")
	add("", "b=", "b=hello", "b/", "b/ b/..x=1")
	add("", "l->a", "l->b", "l->.", "l->b/../a", "..c=odd", "a.b=dot")
	s := ioWorld(kind, c)
	defer s.done()
	seed(s.inner, lines)
	// Links that lead nowhere are outside what fstest expects.
	for _, l := range lines {
		if a, _, ok := strings.Cut(l, "->"); ok {
			if _, err := s.inner.Stat(a); err != nil {
				c.Prune()
			}
		}
	}
	var expect []string
	for _, l := range lines {
		n := l
		for _, sep := range []string{"->", "="} {
			n, _, _ = strings.Cut(n, sep)
		}
		expect = append(expect, strings.TrimSuffix(n, "/"))
	}
	if kind == "ToIoFs(overlayfs)" {
		expect = append(expect, "0", "z/f", "z/g")
	}
	c.Logf("%s over %v", kind, lines)
	c.Step()
	if err := fstest.TestFS(s.fsys, expect...); err != nil {
		c.Fail("testfs:"+kind, "%s over %v: %v", kind, lines, err)
	}
	c.Distinct(kind + strings.Join(lines, " "))
}

type ioW struct {
	fsys  fs.FS
	inner vroot.Fs[vroot.File]
	done  func()
}

func ioWorld(kind string, c *core.C) ioW {
	ref := reffs.New()
	switch kind {
	case "ToIoFs(ref)":
		return ioW{vroot.ToIoFs[vroot.File](ref), ref, nothing}
	case "ToIoFsRoot(ref)":
		return ioW{vroot.ToIoFsRoot[vroot.File](ref), ref, nothing}
	case "ToIoFs(readonly)":
		return ioW{vroot.ToIoFs(vroot.Fs[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[vroot.File](ref))), ref, nothing}
	case "ToIoFs(FromIoFs(ToIoFs(ref)))":
		return ioW{vroot.ToIoFs(vroot.FromIoFs(vroot.ToIoFs[vroot.File](ref).(fs.ReadLinkFS), "n")), ref, nothing}
	case "ToIoFsRoot(ref).Sub", "ToIoFs(ref).Sub":
		if err := ref.MkdirAll("p/q", 0o755); err != nil {
			panic(err)
		}
		in, err := vroot.NewPathPrefixFs[vroot.File](ref, "p/q")
		if err != nil {
			panic(err)
		}
		f := vroot.ToIoFs[vroot.File](ref)
		if kind == "ToIoFsRoot(ref).Sub" {
			f = vroot.ToIoFsRoot[vroot.File](ref)
		}
		sub, err := fs.Sub(f, "p/q")
		if err != nil {
			c.Fail("sub:"+kind, "Sub: %v", err)
		}
		return ioW{sub, in, nothing}
	case "ToIoFs(sftpfs)":
		r := newSftp(true)
		in := vroot.Fs[vroot.File](r.fs)
		return ioW{vroot.ToIoFs(in), in, r.close}
	case "ToIoFs(overlayfs)":
		low := newSynth()
		seed(vroot.Widen(low), []string{"z/", "z/f=1", "z/g->f", "z/gone=x", "0=first"})
		o := stackOver(newSynth(), low)
		if err := o.Remove("z/gone"); err != nil {
			panic(err)
		}
		in := vroot.Fs[vroot.File](o)
		return ioW{vroot.ToIoFs(in), in, nothing}
	case "ToIoFsRoot(synthfs)":
		r := newSynth()
		return ioW{vroot.ToIoFsRoot[vroot.File](r), r, nothing}
	}
	d := scratchDir()
	r := newOsRoot(d)
	w := vroot.Widen[*osfs.File](r)
	done := func() { _ = r.Close(); dropDir(d) }
	switch kind {
	case "ToIoFs(osfs.Fs)":
		f, err := osfs.NewFs(d)
		if err != nil {
			panic(err)
		}
		return ioW{vroot.ToIoFs[*osfs.File](f), w, done}
	case "ToIoFs(Widen(osfs.Root))":
		return ioW{vroot.ToIoFs(w), w, done}
	}
	return ioW{vroot.ToIoFsRoot[*osfs.File](r), w, done}
}

var badNames = []string{"", "/", "/a", "a/", "./a", "a//f", "..", "../a", "a/..", "a/./f", "a/../b", "./", "a\x00b"}

// badNamesRefused: nothing that is not a valid path reaches the inner file system.
func badNamesRefused(c *core.C) {
	kind := core.Pick(c, "ToIoFs(ref)", "ToIoFsRoot(ref)", "ToIoFsRoot(ref).Sub", "ToIoFs(ref).Sub")
	w := ioWorld(kind, c)
	defer w.done()
	seed(w.inner, roTree)
	n := badNames[c.Choose(len(badNames))]
	for _, m := range []struct {
		n   string
		run func() error
	}{
		{"Open", func() error { _, err := w.fsys.Open(n); return err }},
		{"ReadDir", func() error { _, err := w.fsys.(fs.ReadDirFS).ReadDir(n); return err }},
		{"ReadFile", func() error { _, err := w.fsys.(fs.ReadFileFS).ReadFile(n); return err }},
		{"Stat", func() error { _, err := w.fsys.(fs.StatFS).Stat(n); return err }},
		{"Lstat", func() error { _, err := w.fsys.(fs.ReadLinkFS).Lstat(n); return err }},
		{"ReadLink", func() error { _, err := w.fsys.(fs.ReadLinkFS).ReadLink(n); return err }},
		{"Sub", func() error { _, err := w.fsys.(fs.SubFS).Sub(n); return err }},
	} {
		c.Step()
		err := m.run()
		c.Logf("%s.%s(%q): %v", kind, m.n, n, err)
		var pe *fs.PathError
		if !errors.Is(err, fs.ErrInvalid) || !errors.As(err, &pe) || pe.Path != n {
			c.Fail("name:"+kind+":"+m.n, "%s.%s(%q) answers %v, want ErrInvalid in a PathError", kind, m.n, n, err)
		}
	}
}

// rewinds lists what rewinds an open directory.
var rewinds = map[string]bool{"synthfs": true, "osfs.Root": true, "sftpfs": true, "overlayfs": true}

// stackOver is a stack of two in-memory layers.
func stackOver(top, low *synthfs.Root) *overlayfs.Fs {
	if _, err := top.Lstat("merged"); err != nil {
		seed(vroot.Widen(top), []string{"merged/", "work/"})
	}
	src, err := overlayfs.NewDataSourceCanonicalStore(vroot.Widen(top), newMemStore())
	if err != nil {
		panic(err)
	}
	o, err := overlayfs.New(src, []*overlayfs.DataSource{overlayfs.NewDataSource(vroot.Widen(low))}, nil)
	if err != nil {
		panic(err)
	}
	return o
}

// paging reads a directory through the bridges in pages while entries vanish.
func paging(kinds ...string) func(c *core.C) {
	return func(c *core.C) { pageRead(c, kinds[c.Choose(len(kinds))]) }
}

func pageRead(c *core.C, kind string) {
	n := c.Choose(4)
	var lines []string
	lines = append(lines, "d/")
	for i := 0; i < n; i++ {
		lines = append(lines, fmt.Sprintf("d/f%d=x", i))
	}
	var inner vroot.Fs[vroot.File]
	done := nothing
	switch kind {
	case "synthfs":
		inner = newSynth()
	case "sftpfs":
		r := newSftp(true)
		inner, done = r.fs, r.close
	case "osfs.Root", "Expand":
		d := scratchDir()
		r := newOsRoot(d)
		inner, done = vroot.Widen[*osfs.File](r), func() { _ = r.Close(); dropDir(d) }
		if kind == "Expand" {
			// Entries of a real directory look themselves up lazily.
			seed(inner, lines)
			inner = readOnlyOver{vroot.FromIoFs(os.DirFS(d).(fs.ReadLinkFS), "n"), inner}
			lines = nil
		}
	case "overlayfs":
		// Every entry in the top, in the lower or in both.
		top, low := newSynth(), newSynth()
		upper := []string{"merged/", "work/", "merged/d/"}
		lower := []string{"d/"}
		for i, l := range lines[1:] {
			if i != 1 {
				upper = append(upper, "merged/"+l)
			}
			if i != 0 {
				lower = append(lower, l)
			}
		}
		seed(vroot.Widen(top), upper)
		seed(vroot.Widen(low), append(lower, "d/masked=x"))
		o := stackOver(top, low)
		if err := o.Remove("d/masked"); err != nil {
			panic(err)
		}
		inner, lines = o, nil
	default:
		inner = reffs.New()
	}
	defer done()
	seed(inner, lines)
	var f interface {
		ReadDir(n int) ([]fs.DirEntry, error)
	}
	fsys := inner
	switch kind {
	case "ToIoFs":
		g, err := vroot.ToIoFs(inner).Open("d")
		if err != nil {
			panic(err)
		}
		f = g.(fs.ReadDirFile)
	case "Expand(ToIoFs)":
		fsys = vroot.FromIoFs(vroot.ToIoFs(inner).(fs.ReadLinkFS), "n")
	case "ReadOnly":
		fsys = vroot.Widen[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs(inner))
	}
	var h vroot.File
	if f == nil {
		var err error
		h, err = fsys.Open("d")
		if err != nil {
			panic(err)
		}
		defer h.Close()
		f = h
	}
	// One entry may vanish once the handle is open: for Expand and the bridges over
	// the reference in the middle of the next call, for others between two calls.
	gone, vanished := -1, false
	if kind != "sftpfs" && n > 0 && c.Bool() {
		gone = c.Choose(n)
	}
	ref, _ := inner.(*reffs.FS)
	vanish := func() {
		name := fmt.Sprintf("d/f%d", gone)
		switch {
		case vanished:
		case kind == "Expand":
			_ = inner.(readOnlyOver).inner.Remove(name)
		case ref != nil:
			ref.Before = func(op reffs.Op) (int, error) {
				if (op.Name == "lstat" || op.Name == "stat") && op.Path == name {
					return 0, syscall.ENOENT
				}
				return 0, nil
			}
		default:
			if err := inner.Remove(name); err != nil {
				panic(err)
			}
		}
		vanished = true
	}
	seen := map[string]bool{}
	left := n
	c.Logf("%s, %d entries", kind, n)
	calls := 4
	if gone >= 0 {
		calls = 3
	}
	for i := range calls {
		how := core.Pick(c, "ReadDir", "Readdir", "Readdirnames", "rewind")
		if h == nil && how != "ReadDir" {
			c.Prune()
		}
		if how == "rewind" {
			if i == 0 || !rewinds[kind] {
				c.Prune()
			}
			c.Step()
			if n, err := h.Seek(0, io.SeekStart); n != 0 || err != nil {
				c.Fail("rewind:"+kind, "%s: Seek(0, 0): %d %v", c.History(), n, err)
			}
			c.Logf("rewind")
			seen, left = map[string]bool{}, n
			continue
		}
		if gone >= 0 && !vanished && (kind != "Expand" || how == "Readdir") && (kind == "Expand" || c.Bool()) {
			vanish()
			c.Logf("f%d vanishes", gone)
		}
		sizes := []int{-1, 1, 2, 0, 5}
		if kind == "sftpfs" {
			sizes = sizes[:3]
		}
		k := sizes[c.Choose(len(sizes))]
		c.Step()
		var names []string
		var err error
		switch how {
		case "ReadDir":
			var es []fs.DirEntry
			es, err = f.ReadDir(k)
			for _, e := range es {
				names = append(names, e.Name())
			}
		case "Readdir":
			var es []fs.FileInfo
			es, err = h.Readdir(k)
			for _, e := range es {
				if e == nil {
					c.Fail("nil:"+kind, "%s; Readdir(%d) returns a nil entry", c.History(), k)
				}
				names = append(names, e.Name())
			}
		case "Readdirnames":
			names, err = h.Readdirnames(k)
		}
		c.Logf("%s(%d): %v %v", how, k, names, err)
		for _, x := range names {
			if seen[x] || !strings.HasPrefix(x, "f") {
				c.Fail("twice:"+kind, "%s: %q is listed twice or does not exist", c.History(), x)
			}
			seen[x] = true
		}
		if gone >= 0 {
			// os.File gives an empty page when every entry of one vanished.
			if k > 0 && len(names) == 0 && err == nil && kind != "osfs.Root" {
				c.Fail("empty:"+kind, "%s: an empty page without an error", c.History())
			}
			if err != nil && err != io.EOF || err != nil && k <= 0 {
				c.Fail("vanished:"+kind, "%s: a vanished entry fails the listing", c.History())
			}
			if err != nil || k <= 0 {
				for j := range n {
					if x := fmt.Sprintf("f%d", j); j != gone && !seen[x] {
						c.Fail("lost:"+kind, "%s: the listing is through without %q", c.History(), x)
					}
				}
			}
			continue
		}
		switch {
		case k <= 0:
			if err != nil || len(names) != left {
				c.Fail("all:"+kind, "%s: want the %d remaining entries and no error", c.History(), left)
			}
		case left == 0:
			if err != io.EOF || len(names) != 0 {
				c.Fail("eof:"+kind, "%s: want io.EOF", c.History())
			}
		default:
			if err != nil || len(names) != min(k, left) {
				c.Fail("page:"+kind, "%s: want %d entries", c.History(), min(k, left))
			}
		}
		left -= len(names)
	}
}

func init() {
	core.Register(&core.Property{
		ID: "V02", Unpriv: true,
		Init: func() error { syscall.Umask(0); return nil },
		Rule: "after every call the wrapped file system's full snapshot (entries, contents, modes, owners, times, inodes) is unchanged; mutating calls answer EROFS (files: EPERM), reading ones what the wrapped file system answers",
		Assumptions: []string{
			"reading through a file opened with O_RDONLY|O_SYNC or O_EXCL counts as reading",
			"access times are not compared on real directories",
		},
		Scenarios: func(th bool) []core.Scenario {
			d := 2
			if th {
				d = 3
			}
			return []core.Scenario{{
				Name:  "every call",
				Bound: fmt.Sprintf("9 wrappers, 0-2 nested sub-roots, 13 mutating calls on 10x10 paths, 96 flag combinations on 10 paths followed by every %d calls out of 16 on the handle", d),
				Body:  readOnly(d),
			}}
		},
	})
	core.Register(&core.Property{
		ID: "V04", Unpriv: true,
		Init: func() error { syscall.Umask(0); return nil },
		Rule: "testing/fstest's battery accepts every bridge over every small tree, names that are not valid paths are refused with ErrInvalid, and paged listings cover each entry once with EOF at the end, whatever mix of calls reads them",
		Assumptions: []string{
			"dangling links are outside what fstest defines",
			"an entry removed while a listing is under way may or may not be listed",
		},
		Scenarios: func(th bool) []core.Scenario {
			return []core.Scenario{
				{Name: "fstest", Bound: "12 bridges, 6x5x7 trees", Body: bridge},
				{Name: "names", Bound: "4 bridges, 7 methods, 13 invalid names", Body: badNamesRefused},
				{Name: "paging", Bound: "7 file systems, directories of 0-3 entries, every sequence of 4 page reads (3 methods, 5 page sizes) and rewinds, one entry vanishing", Body: paging("ToIoFs", "Expand", "Expand(ToIoFs)", "ReadOnly", "synthfs", "osfs.Root", "overlayfs")},
			}
		},
	})
}
