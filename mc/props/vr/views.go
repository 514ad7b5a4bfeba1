package vr

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing/fstest"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// V11: files of a synthetic file system that are read-only views of bytes kept
// elsewhere, against the reference file system, where the same bytes are a
// plain file that nobody writes.

// countView counts the handles a view has open.
type countView struct {
	synthfs.FileView
	open, closed, late int
	fail               bool
}

type countHandle struct {
	vroot.File
	v    *countView
	done bool
}

func (v *countView) Open(flag int) (vroot.File, error) {
	if v.fail {
		return nil, errFault
	}
	if v.closed > 0 {
		v.late++
	}
	f, err := v.FileView.Open(flag)
	if err != nil {
		return nil, err
	}
	v.open++
	return &countHandle{f, v, false}, nil
}

func (v *countView) Close() error {
	v.closed++
	return v.FileView.Close()
}

func (h *countHandle) Close() error {
	if !h.done {
		h.done = true
		h.v.open--
	}
	return h.File.Close()
}

type ability int

const (
	readsAt ability = iota
	seeks
	onlyReads
)

// countFS counts the files it has open and tells what they can do.
type countFS struct {
	fs.FS
	can  ability
	open int
}

type srcFile struct {
	fs.File
	s    *countFS
	done bool
}

// srcSeekFile also seeks.
type srcSeekFile struct {
	*srcFile
	r io.ReadSeeker
}

func (f srcSeekFile) Read(b []byte) (int, error)              { return f.r.Read(b) }
func (f srcSeekFile) Seek(o int64, whence int) (int64, error) { return f.r.Seek(o, whence) }

// srcFullFile also reads at offsets.
type srcFullFile struct {
	*srcFile
	r interface {
		io.ReadSeeker
		io.ReaderAt
	}
}

func (f srcFullFile) Read(b []byte) (int, error)              { return f.r.Read(b) }
func (f srcFullFile) ReadAt(b []byte, o int64) (int, error)   { return f.r.ReadAt(b, o) }
func (f srcFullFile) Seek(o int64, whence int) (int64, error) { return f.r.Seek(o, whence) }

func (s *countFS) Open(name string) (fs.File, error) {
	f, err := s.FS.Open(name)
	if err != nil {
		return nil, err
	}
	s.open++
	w := &srcFile{f, s, false}
	if s.can != onlyReads {
		if o, ok := f.(*os.File); ok {
			return srcFullFile{w, o}, nil
		}
		// The files of MapFS do not go past their end.
		b, err := io.ReadAll(f)
		if err != nil {
			return nil, err
		}
		if s.can == seeks {
			return srcSeekFile{w, bytes.NewReader(b)}, nil
		}
		return srcFullFile{w, bytes.NewReader(b)}, nil
	}
	return w, nil
}

func (f *srcFile) Close() error {
	if !f.done {
		f.done = true
		f.s.open--
	}
	return f.File.Close()
}

// source is something to be shown: a view of "abc", and what must hold of it
// at the end.
type source struct {
	name string
	cant string
	mk   func() shown
}

type shown struct {
	v     synthfs.FileView
	check func() string // the source is as it was
	open  func() int    // how many files of it are open
}

func unless(ok bool, format string, args ...any) string {
	if ok {
		return ""
	}
	return fmt.Sprintf(format, args...)
}

func mapSource() fstest.MapFS {
	return fstest.MapFS{"dir/src": &fstest.MapFile{Data: []byte("abc"), Mode: 0o644}}
}

func overFS(what ability) func() shown {
	return func() shown {
		m := mapSource()
		s := &countFS{FS: m, can: what}
		v, err := synthfs.NewFsView(s, "dir/src")
		if err != nil {
			panic(err)
		}
		return shown{v, func() string {
			return unless(string(m["dir/src"].Data) == "abc" && len(m) == 1, "the source is now %q", m["dir/src"].Data)
		}, func() int { return s.open }}
	}
}

// ranged shows [off, off+3) of what in makes of data.
func ranged(data string, off int64, in func(data string) (synthfs.FileView, func() string)) func() shown {
	return func() shown {
		inner, check := in(data)
		s := &countView{FileView: inner}
		v, err := synthfs.NewRangedView(s, off, 3)
		if err != nil {
			panic(err)
		}
		return shown{v, func() string {
			return check() + unless(s.late == 0, "the inner view is used after it was closed")
		}, func() int { return s.open }}
	}
}

func bytesSource(data string) (synthfs.FileView, func() string) {
	b := []byte(data)
	return synthfs.NewBytesView(b, 0o644, srcTime), func() string { return unless(string(b) == data, "the source is now %q", b) }
}

func memSource(data string) (synthfs.FileView, func() string) {
	v, err := synthfs.NewMemAllocator(nil).Allocate("m", 0o644)
	if err != nil {
		panic(err)
	}
	f, err := v.Open(os.O_RDWR)
	if err != nil {
		panic(err)
	}
	if _, err := f.WriteString(data); err != nil {
		panic(err)
	}
	if err := f.Close(); err != nil {
		panic(err)
	}
	return v, func() string {
		f, err := v.Open(os.O_RDONLY)
		if err != nil {
			return err.Error()
		}
		defer f.Close()
		b, err := io.ReadAll(f)
		return unless(err == nil && string(b) == data, "the source is now %q, %v", b, err)
	}
}

func sourcesOf() []source {
	osFS := func() shown {
		dir, err := os.MkdirTemp("", "v11")
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(dir, "src"), []byte("abc"), 0o644); err != nil {
			panic(err)
		}
		s := &countFS{FS: os.DirFS(dir)}
		v, err := synthfs.NewFsView(s, "src")
		if err != nil {
			panic(err)
		}
		return shown{v, func() string {
			b, err := os.ReadFile(filepath.Join(dir, "src"))
			_ = os.RemoveAll(dir)
			return unless(err == nil && string(b) == "abc", "the source is now %q, %v", b, err)
		}, func() int { return s.open }}
	}
	nested := func(data string) (synthfs.FileView, func() string) {
		b, check := bytesSource("<" + data)
		v, err := synthfs.NewRangedView(b, 1, int64(len(data)))
		if err != nil {
			panic(err)
		}
		return v, check
	}
	return []source{
		{"bytes", "", func() shown {
			v, check := bytesSource("abc")
			s := &countView{FileView: v}
			return shown{s, check, func() int { return s.open }}
		}},
		{"fs", "", overFS(readsAt)},
		{"fs, sequential", "seek readat", overFS(onlyReads)},
		{"fs, seeking", "readat", overFS(seeks)},
		{"directory on disk", "", osFS},
		{"middle of bytes", "", ranged("x-abcy", 2, bytesSource)},
		{"end of memory", "", ranged("xabc", 1, memSource)},
		{"start of a range", "", ranged("abcz", 0, nested)},
	}
}

func viewOps(slots int) (out []hop) {
	for _, o := range fileHandleOps(slots, false) {
		switch {
		case o.kind == "open" && (o.path.A == "d" || o.h == 1 && o.flag == os.O_WRONLY),
			o.kind == "names" || o.kind == "infos" || o.kind == "dirseek" || o.kind == "readdir" && o.n < 0,
			o.path.A == "d" || o.path.A == "d/k":
			continue
		}
		out = append(out, o)
	}
	return append(out, hop{path: Op{Kind: "rename", A: "f", B: "d/x"}}, hop{path: Op{Kind: "create", A: "d/x", Data: "kk"}})
}

// viewFaultOps are the calls that need one call of a view or two.
func viewFaultOps(slots int) (out []hop) {
	for _, o := range viewOps(slots) {
		if o.kind == "copyin" || o.kind == "copycut" || o.kind == "copyout" || o.n == 0 && (o.kind == "read" || o.kind == "readat" || strings.HasPrefix(o.kind, "write")) {
			continue
		}
		out = append(out, o)
	}
	return append(out, hop{path: Op{Kind: "removeall", A: "d"}}, hop{path: Op{Kind: "create", A: "n", Data: "n"}})
}

func viewBody(mkSrc source, ops []hop, depth int) func(c *core.C) {
	return func(c *core.C) {
		src := mkSrc.mk()
		r := newSynth()
		if err := r.AddFile("f", src.v, nil); err != nil {
			panic(err)
		}
		s := ofRoot[vroot.File]("synthfs", true, r)
		ref := reffs.New()
		rest := []string{"d/", "d/x=1"}
		seed(s.Fs, rest)
		seed(ref, append([]string{"f=abc"}, rest...))
		h := &hsys{c: c, s: s, ref: ref, skip: synthSkip, kit: kitSynth, linked: map[*reffs.Node]bool{}, ro: map[*reffs.Node]bool{reffs.Lookup(ref, "f", true): true}, cant: mkSrc.cant}
		defer func() {
			h.closeAll()
			e := src.check()
			if n := src.open(); n != 0 {
				e = fmt.Sprintf("%d of its files stay open", n)
			}
			if e != "" {
				c.Fail("source", "%s: %s\nhistory: %s", mkSrc.name, e, c.History())
			}
		}()
		for i := range depth {
			o := ops[c.Choose(len(ops))]
			if o.h == 1 && h.slots[0] == nil || !h.step(o) {
				c.Prune()
			}
			if !c.Fresh() {
				continue
			}
			h.look(o.String())
			want := 0
			for _, sl := range h.slots {
				if sl != nil && !sl.closed && h.ro[sl.node] {
					want++
				}
			}
			if n := src.open(); n != want {
				c.Fail("source", "%s: %d of its files are open, with %d handles\nhistory: %s", mkSrc.name, n, want, c.History())
			}
			if !c.Visit(h.state(), depth-i-1) {
				return
			}
		}
	}
}

// viewConstructors decides which views may be made at all.
func viewConstructors(c *core.C) {
	m := fstest.MapFS{
		"dir/src": &fstest.MapFile{Data: []byte("abc"), Mode: 0o644},
		"to":      &fstest.MapFile{Data: []byte("dir/src"), Mode: fs.ModeSymlink | 0o777},
		"gone":    &fstest.MapFile{Data: []byte("nowhere"), Mode: fs.ModeSymlink | 0o777},
		"pipe":    &fstest.MapFile{Mode: fs.ModeNamedPipe | 0o644},
	}
	if c.Bool() {
		n := core.Pick(c, "dir/src", "to", "gone", "pipe", "dir", ".", "missing", "../dir/src", "/dir/src", "")
		s := &countFS{FS: m, can: onlyReads}
		v, err := synthfs.NewFsView(s, n)
		c.Step()
		if ok := n == "dir/src" || n == "to"; ok != (err == nil) || ok != (v != nil) {
			c.Fail("fs view:"+n, "NewFsView(%q) gives %v, %v", n, v, err)
		}
		if s.open != 0 {
			c.Fail("fs view:open", "NewFsView(%q) leaves %d files open", n, s.open)
		}
		return
	}
	data := "abcd"
	off := core.Pick[int64](c, -1, 0, 1, 3, math.MinInt64)
	n := core.Pick[int64](c, -1, 0, 1, 2, math.MinInt64)
	b, _ := bytesSource(data)
	in := &countView{FileView: b, fail: c.Bool()}
	v, err := synthfs.NewRangedView(in, off, n)
	c.Step()
	ok := off >= 0 && n > 0 && !in.fail
	if ok != (err == nil) || ok != (v != nil) {
		c.Fail("range", "NewRangedView(%d, %d, inner fails: %v) gives %v, %v", off, n, in.fail, v, err)
		return
	}
	if in.fail && off >= 0 && n > 0 && !errors.Is(err, errFault) {
		c.Fail("range:cause", "NewRangedView of what does not open gives %v", err)
	}
	if in.open != 0 || in.closed != 0 {
		c.Fail("range:open", "NewRangedView(%d, %d) leaves %d handles open, closes the view %d times", off, n, in.open, in.closed)
	}
	if !ok || off+n > int64(len(data)) {
		return
	}
	f, err := v.Open(os.O_RDONLY)
	if err != nil {
		c.Fail("range:read", "opening [%d, %d): %v", off, off+n, err)
		return
	}
	got, err := io.ReadAll(f)
	if want := data[off : off+n]; err != nil || string(got) != want {
		c.Fail("range:read", "[%d, %d) reads %q, %v", off, off+n, got, err)
	}
	if fi, err := v.Stat(); err != nil || fi.Size() != n {
		c.Fail("range:size", "[%d, %d) has %v, %v", off, off+n, fi, err)
	}
	if err := f.Close(); err != nil || in.open != 0 {
		c.Fail("range:open", "closed with %v, %d handles open", err, in.open)
	}
	for _, fl := range []int{os.O_WRONLY, os.O_RDWR, os.O_RDONLY | os.O_APPEND, os.O_WRONLY | os.O_TRUNC} {
		if f, err := v.Open(fl); err == nil {
			c.Fail("range:write", "opened %s: %v", flagString(fl), f)
		}
	}
}

// bareHandles uses views without a file system around them.
func bareHandles(c *core.C) {
	src := core.Pick(c, sourcesOf()...)
	sh := src.mk()
	f, err := sh.v.Open(os.O_RDONLY)
	if err != nil {
		c.Fail("open", "%s: %v", src.name, err)
	}
	calls := []string{"write", "writeat", "writestring", "truncate", "chmod", "chown", "readdir", "infos", "names", "open to write", "open to append", "open to truncate"}
	what := core.Pick(c, calls...)
	c.Logf("%s: %s", src.name, what)
	c.Step()
	opened := func(flag int) error {
		f, err := sh.v.Open(flag)
		if err == nil {
			_ = f.Close()
		}
		return err
	}
	switch what {
	case "write":
		_, err = f.Write([]byte("z"))
	case "writeat":
		_, err = f.WriteAt([]byte("z"), 0)
	case "writestring":
		_, err = f.WriteString("z")
	case "truncate":
		err = f.Truncate(0)
	case "chmod":
		err = f.Chmod(0o600)
	case "chown":
		err = f.Chown(1, 1)
	case "readdir":
		_, err = f.ReadDir(-1)
	case "infos":
		_, err = f.Readdir(-1)
	case "names":
		_, err = f.Readdirnames(-1)
	case "open to write":
		err = opened(os.O_RDWR)
	case "open to append":
		err = opened(os.O_RDONLY | os.O_APPEND)
	case "open to truncate":
		err = opened(os.O_RDONLY | os.O_TRUNC)
	}
	if err == nil {
		c.Fail("bare:"+what, "%s: %s on a handle of a read-only view of a file succeeds", src.name, what)
	}
	if fi, err := f.Stat(); err != nil || fi.Size() != 3 {
		c.Fail("bare:stat", "%s: after %s the file is %v, %v", src.name, what, fi, err)
	}
	if b, err := io.ReadAll(f); err != nil || string(b) != "abc" {
		c.Fail("bare:read", "%s: after %s the file reads %q, %v", src.name, what, b, err)
	}
	if err := f.Close(); err != nil || sh.open() != 0 {
		c.Fail("bare:open", "%s: closed with %v, %d files open", src.name, err, sh.open())
	}
	if e := sh.check(); e != "" {
		c.Fail("bare:source", "%s: after %s: %s", src.name, what, e)
	}
}

// viewFollows changes and removes the source behind a view, with or without a
// handle open, and looks again.
func viewFollows(c *core.C) {
	m := mapSource()
	inner := &countFS{FS: m}
	v, err := synthfs.NewFsView(inner, "dir/src")
	if err != nil {
		panic(err)
	}
	want := []byte("abc")
	if c.Bool() {
		c.Logf("through a range")
		if v, err = synthfs.NewRangedView(v, 1, 2); err != nil {
			panic(err)
		}
		want = []byte("bc")
	}
	full := len(want) == 3
	r := newSynth()
	seed(r, []string{"d/", "d/k=1"})
	if err := r.AddFile("d/f", v, nil); err != nil {
		panic(err)
	}
	gone := false
	for range 4 {
		switch op := core.Pick(c, "longer", "empty", "gone", "read", "remove", "rename"); op {
		case "longer", "empty":
			if !full {
				// What a range shows of a source that changes size is not told.
				c.Prune()
			}
			c.Logf("the source changes: %s", op)
			want = map[string][]byte{"longer": []byte("ABCDE"), "empty": {}}[op]
			m["dir/src"] = &fstest.MapFile{Data: want, Mode: 0o600}
			gone = false
		case "gone":
			c.Logf("the source is gone")
			delete(m, "dir/src")
			gone = true
		case "read":
			c.Logf("read")
			b, err := readAllOf(r, "d/f")
			fi, serr := r.Stat("d/f")
			es, lerr := fs.ReadDir(vroot.ToIoFsRoot(r), "d")
			c.Step()
			if gone {
				if !errors.Is(err, fs.ErrNotExist) || !errors.Is(serr, fs.ErrNotExist) || fi != nil {
					c.Fail("gone", "without its source the file reads %q, %v and is %v, %v\nhistory: %s", b, err, fi, serr, c.History())
				}
				break
			}
			if err != nil || string(b) != string(want) || serr != nil || fi.Size() != int64(len(want)) || fi.Mode() != 0o644 {
				c.Fail("follow", "the source is %q, the file reads %q, %v and is %v, %v\nhistory: %s", want, b, err, fi, serr, c.History())
			}
			if lerr != nil || len(es) != 2 {
				c.Fail("list", "listing: %v, %v", es, lerr)
			}
		case "remove":
			c.Logf("remove")
			if err := r.Remove("d/f"); err != nil {
				c.Fail("remove", "removing the file: %v\nhistory: %s", err, c.History())
			}
			if _, err := r.Lstat("d/f"); !errors.Is(err, fs.ErrNotExist) {
				c.Fail("remove", "removed, yet lstat gives %v\nhistory: %s", err, c.History())
			}
			if inner.open != 0 {
				c.Fail("open", "%d files of the source stay open\nhistory: %s", inner.open, c.History())
			}
			return
		case "rename":
			c.Logf("rename over")
			if err := r.Rename("d/f", "d/k"); err != nil {
				c.Fail("rename", "renaming the file: %v\nhistory: %s", err, c.History())
			}
			if b, err := readAllOf(r, "d/k"); gone != errors.Is(err, fs.ErrNotExist) || !gone && string(b) != string(want) {
				c.Fail("rename", "renamed, the file reads %q, %v\nhistory: %s", b, err, c.History())
			}
			return
		}
	}
	if inner.open != 0 {
		c.Fail("open", "%d files of the source stay open\nhistory: %s", inner.open, c.History())
	}
}

// faults makes one kind of call on views and their handles fail.
type faults struct {
	arm, fired string
	open       int
	mem        synthfs.FileViewAllocator
}

func (t *faults) hit(kind string) error {
	if t.arm != kind {
		return nil
	}
	t.fired = kind
	return errFault
}

func (t *faults) Allocate(name string, perm fs.FileMode) (synthfs.FileView, error) {
	if err := t.hit("allocate"); err != nil {
		return nil, err
	}
	v, err := t.mem.Allocate(name, perm)
	if err != nil {
		return nil, err
	}
	return &faultView{v, t}, nil
}

type faultView struct {
	synthfs.FileView
	t *faults
}

func (v *faultView) Open(flag int) (vroot.File, error) {
	if err := v.t.hit("open"); err != nil {
		return nil, err
	}
	f, err := v.FileView.Open(flag)
	if err != nil {
		return nil, err
	}
	v.t.open++
	return &faultHandle{f, v.t}, nil
}

func (v *faultView) Stat() (fs.FileInfo, error) {
	if err := v.t.hit("stat"); err != nil {
		return nil, err
	}
	return v.FileView.Stat()
}

func (v *faultView) Close() error {
	err := v.FileView.Close()
	return errors.Join(err, v.t.hit("closeview"))
}

type faultHandle struct {
	vroot.File
	t *faults
}

func (h *faultHandle) Close() error {
	h.t.open--
	return errors.Join(h.File.Close(), h.t.hit("close"))
}

func (h *faultHandle) Read(b []byte) (int, error) {
	if err := h.t.hit("read"); err != nil {
		return 0, err
	}
	return h.File.Read(b)
}

func (h *faultHandle) ReadAt(b []byte, off int64) (int, error) {
	if err := h.t.hit("read"); err != nil {
		return 0, err
	}
	return h.File.ReadAt(b, off)
}

func (h *faultHandle) Write(b []byte) (int, error) {
	if err := h.t.hit("write"); err != nil {
		return 0, err
	}
	return h.File.Write(b)
}

func (h *faultHandle) WriteAt(b []byte, off int64) (int, error) {
	if err := h.t.hit("write"); err != nil {
		return 0, err
	}
	return h.File.WriteAt(b, off)
}

func (h *faultHandle) WriteString(s string) (int, error) {
	if err := h.t.hit("write"); err != nil {
		return 0, err
	}
	return h.File.WriteString(s)
}

func (h *faultHandle) Truncate(n int64) error {
	if err := h.t.hit("truncate"); err != nil {
		return err
	}
	return h.File.Truncate(n)
}

func (h *faultHandle) Seek(off int64, whence int) (int64, error) {
	if err := h.t.hit("seek"); err != nil {
		return 0, err
	}
	return h.File.Seek(off, whence)
}

func (h *faultHandle) Sync() error {
	if err := h.t.hit("sync"); err != nil {
		return err
	}
	return h.File.Sync()
}

// faultsOf is what can fail in a call.
func faultsOf(o hop) []string {
	switch o.kind + o.path.Kind {
	case "open":
		return []string{"", "allocate", "open", "truncate"}
	case "create":
		return []string{"", "allocate", "open", "truncate"}
	case "read", "readat":
		return []string{"", "read"}
	case "write", "writeat", "writestring":
		return []string{"", "write"}
	case "truncate", "stat", "seek", "sync", "close":
		return []string{"", o.kind}
	case "remove", "rename", "removeall":
		return []string{"", "closeview"}
	}
	return []string{""}
}

// intime fails instead of waiting for a call that never comes back.
func intime(c *core.C, what fmt.Stringer, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			panic(p)
		}
	case <-time.After(10 * time.Second):
		c.Fail("stuck", "%v does not return\nhistory: %s", what, c.History())
		panic("stuck")
	}
}

func faultBody(ops []hop, depth int) func(c *core.C) {
	return func(c *core.C) {
		t := &faults{mem: synthfs.NewMemAllocator(nil)}
		mask := fs.FileMode(0)
		r := synthfs.NewRoot("synth", &synthfs.Option{Umask: &mask, Allocator: t})
		_ = r.Chmod(".", 0o755)
		s := ofRoot[vroot.File]("synthfs", true, r)
		ref := reffs.New()
		seed(s.Fs, handleSeed)
		seed(ref, handleSeed)
		h := &hsys{c: c, s: s, ref: ref, skip: synthSkip, kit: kitSynth, linked: map[*reffs.Node]bool{}, fault: func() string { return t.fired }}
		for i := range depth {
			o := ops[c.Choose(len(ops))]
			if i == 0 && o.kind != "open" && o.kind != "" || o.h == 1 && h.slots[0] == nil {
				c.Prune()
			}
			t.arm, t.fired = core.Pick(c, faultsOf(o)...), ""
			if t.arm != "" {
				c.Logf("the view's %s fails:", t.arm)
			}
			ok := false
			intime(c, o, func() { ok = h.step(o) })
			if !ok || t.arm != t.fired {
				c.Prune()
			}
			t.arm, t.fired = "", ""
			if !c.Fresh() {
				continue
			}
			intime(c, o, func() { h.look(o.String()) })
			want := 0
			for _, sl := range h.slots {
				if sl != nil && !sl.closed && !sl.node.Mode.IsDir() {
					want++
				}
			}
			if t.open != want {
				c.Fail("open:"+o.kind+o.path.Kind, "%d handles of views are open, with %d handles\nhistory: %s", t.open, want, c.History())
			}
			if !c.Visit(h.state()+fmt.Sprint(t.open), depth-i-1) {
				break
			}
		}
		h.closeAll()
		if t.open != 0 {
			c.Fail("open", "%d handles of views stay open\nhistory: %s", t.open, c.History())
		}
	}
}

func readAllOf(r *synthfs.Root, name string) ([]byte, error) {
	f, err := r.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func init() {
	core.Register(&core.Property{
		ID: "V11", Unpriv: true,
		Init: func() error { syscall.Umask(0); return nil },
		Rule: "each call on the file and its handles has the result a plain file's has, except that what would write is refused and changes nothing; at the end the source is as it was and none of its handles is open",
		Assumptions: []string{
			"sources that change size under a ranged view are not judged",
		},
		Scenarios: func(th bool) (out []core.Scenario) {
			for _, src := range sourcesOf() {
				d1, d2 := 4, 3
				switch src.name {
				case "bytes":
					d1, d2 = 5, 4
				case "fs, sequential", "middle of bytes":
					d1 = 5
				}
				if th {
					d1++
					d2++
				}
				one, two := viewOps(1), viewOps(2)
				out = append(out,
					core.Scenario{Name: "one handle: " + src.name, Bound: bound(1, len(one), d1, true), Body: viewBody(src, one, d1)},
					core.Scenario{Name: "two handles: " + src.name, Bound: bound(1, len(two), d2, true), Body: viewBody(src, two, d2)},
				)
			}
			d := 4
			if th {
				d = 5
			}
			fo := viewFaultOps(2)
			return append(out,
				core.Scenario{Name: "views that fail", Bound: bound(1, len(fo), d, true) + ", each call with each failure of the view it can meet", Body: faultBody(fo, d)},
				core.Scenario{Name: "handles of views", Bound: "12 calls on a handle of each kind of view", Body: bareHandles},
				core.Scenario{Name: "which views can be made", Bound: "10 names in a source with links and a pipe; 5 offsets, 5 lengths, inner views that open and that do not", Body: viewConstructors},
				core.Scenario{Name: "the source changes", Bound: "all sequences of 4 of: it grows, empties, vanishes; read, remove, rename over; seen whole and through a range", Body: viewFollows},
			)
		},
	})
}
