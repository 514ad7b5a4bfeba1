package vr

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"strings"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/mc/core"
)

// spy records every call it gets and answers as told.
type spy struct {
	calls *[]string
	fail  error
	label string
	// typedNil makes failing opens return a nil of the concrete type.
	dir bool
}

var errSpy = errors.New("the inner file system failed")

type spyFile struct {
	s    *spy
	name string
}

type spyInfo struct{ name string }

func (i spyInfo) Name() string               { return i.name }
func (i spyInfo) Size() int64                { return 7 }
func (i spyInfo) Mode() fs.FileMode          { return fs.ModeDir | 0o751 }
func (i spyInfo) ModTime() time.Time         { return epoch }
func (i spyInfo) IsDir() bool                { return true }
func (i spyInfo) Sys() any                   { return i.name }
func (i spyInfo) Type() fs.FileMode          { return fs.ModeDir }
func (i spyInfo) Info() (fs.FileInfo, error) { return i, nil }

func (s *spy) rec(format string, a ...any) error {
	*s.calls = append(*s.calls, s.label+fmt.Sprintf(format, a...))
	return s.fail
}

func (s *spy) Chmod(n string, m fs.FileMode) error { return s.rec("Chmod %q %v", n, m) }
func (s *spy) Chown(n string, u, g int) error      { return s.rec("Chown %q %d %d", n, u, g) }
func (s *spy) Chtimes(n string, a, m time.Time) error {
	return s.rec("Chtimes %q %d %d", n, a.Unix(), m.Unix())
}
func (s *spy) Close() error { return s.rec("Close") }
func (s *spy) file(n string, err error) (*spyFile, error) {
	if err != nil {
		return nil, err
	}
	return &spyFile{s, n}, nil
}
func (s *spy) Create(n string) (*spyFile, error) { return s.file(n, s.rec("Create %q", n)) }
func (s *spy) Lchown(n string, u, g int) error   { return s.rec("Lchown %q %d %d", n, u, g) }
func (s *spy) Link(o, n string) error            { return s.rec("Link %q %q", o, n) }
func (s *spy) info(n string, err error) (fs.FileInfo, error) {
	if err != nil {
		return nil, err
	}
	return spyInfo{n}, nil
}
func (s *spy) Lstat(n string) (fs.FileInfo, error)    { return s.info(n, s.rec("Lstat %q", n)) }
func (s *spy) Mkdir(n string, m fs.FileMode) error    { return s.rec("Mkdir %q %v", n, m) }
func (s *spy) MkdirAll(n string, m fs.FileMode) error { return s.rec("MkdirAll %q %v", n, m) }
func (s *spy) Name() string                           { _ = s.rec("Name"); return "spy" + s.label }
func (s *spy) Open(n string) (*spyFile, error)        { return s.file(n, s.rec("Open %q", n)) }
func (s *spy) OpenFile(n string, f int, m fs.FileMode) (*spyFile, error) {
	return s.file(n, s.rec("OpenFile %q %x %v", n, f, m))
}
func (s *spy) ReadLink(n string) (string, error) {
	if err := s.rec("ReadLink %q", n); err != nil {
		return "", err
	}
	return "t:" + n, nil
}
func (s *spy) Remove(n string) error    { return s.rec("Remove %q", n) }
func (s *spy) RemoveAll(n string) error { return s.rec("RemoveAll %q", n) }
func (s *spy) Rename(o, n string) error { return s.rec("Rename %q %q", o, n) }
func (s *spy) Stat(n string) (fs.FileInfo, error) {
	return s.info(n, s.rec("Stat %q", n))
}
func (s *spy) Symlink(o, n string) error { return s.rec("Symlink %q %q", o, n) }
func (s *spy) IsRoot()                   {}
func (s *spy) OpenRoot(n string) (*spy, error) {
	if err := s.rec("OpenRoot %q", n); err != nil {
		return nil, err
	}
	c := *s
	c.label = "sub(" + n + ")."
	return &c, nil
}

func (f *spyFile) rec(format string, a ...any) error {
	return f.s.rec("file(%s)."+format, append([]any{f.name}, a...)...)
}
func (f *spyFile) Chmod(m fs.FileMode) error { return f.rec("Chmod %v", m) }
func (f *spyFile) Chown(u, g int) error      { return f.rec("Chown %d %d", u, g) }
func (f *spyFile) Close() error              { return f.rec("Close") }
func (f *spyFile) Fd() uintptr               { _ = f.rec("Fd"); return 77 }
func (f *spyFile) Name() string              { return f.name }
func (f *spyFile) Read(b []byte) (int, error) {
	if err := f.rec("Read %d", len(b)); err != nil {
		return 0, err
	}
	return copy(b, "R"), nil
}
func (f *spyFile) ReadAt(b []byte, off int64) (int, error) {
	if err := f.rec("ReadAt %d %d", len(b), off); err != nil {
		return 0, err
	}
	return copy(b, "A"), nil
}
func (f *spyFile) ReadDir(n int) ([]fs.DirEntry, error) {
	err := f.rec("ReadDir %d", n)
	return []fs.DirEntry{spyInfo{"e2"}, spyInfo{"e1"}}, err
}
func (f *spyFile) Readdir(n int) ([]fs.FileInfo, error) {
	err := f.rec("Readdir %d", n)
	return []fs.FileInfo{spyInfo{"e2"}, spyInfo{"e1"}}, err
}
func (f *spyFile) Readdirnames(n int) ([]string, error) {
	err := f.rec("Readdirnames %d", n)
	return []string{"e2", "e1"}, err
}
func (f *spyFile) Seek(o int64, w int) (int64, error) { return 5, f.rec("Seek %d %d", o, w) }
func (f *spyFile) Stat() (fs.FileInfo, error)         { return f.s.info(f.name, f.rec("Stat")) }
func (f *spyFile) Sync() error                        { return f.rec("Sync") }
func (f *spyFile) Truncate(n int64) error             { return f.rec("Truncate %d", n) }
func (f *spyFile) Write(b []byte) (int, error)        { return 3, f.rec("Write %s", b) }
func (f *spyFile) WriteAt(b []byte, o int64) (int, error) {
	return 3, f.rec("WriteAt %s %d", b, o)
}
func (f *spyFile) WriteString(s string) (int, error) { return 3, f.rec("WriteString %s", s) }

var (
	_ vroot.Root[*spyFile, *spy] = (*spy)(nil)
	_ vroot.File                 = (*spyFile)(nil)
)

// call is one method call and what it looks like once translated.
type call struct {
	name   string
	paths  int // number of path arguments that are translated
	read   bool
	extraN string
	run    func(f vroot.Fs[vroot.File], a, b string, sub func(string) (vroot.Fs[vroot.File], error)) (string, error)
	want   func(a, b string) string
	escErr string
}

func res(v any, err error) (string, error) { return fmt.Sprintf("%v", v), err }

func fileRes(f vroot.File, err error) (string, error) {
	if err != nil {
		if f != nil && !isNilFile(f) {
			return "file with error", err
		}
		if f != nil {
			return "typed nil", err
		}
		return "", err
	}
	return "file " + f.Name(), nil
}

var t1, t2 = time.Unix(11, 0), time.Unix(22, 0)

func calls() []call {
	type F = vroot.Fs[vroot.File]
	type S = func(string) (F, error)
	one := func(name string, read bool, run func(f F, a string) (string, error), want string) call {
		return call{name: name, paths: 1, read: read, run: func(f F, a, b string, _ S) (string, error) { return run(f, a) }, want: func(a, b string) string { return fmt.Sprintf(want, a) }}
	}
	two := func(name string, n int, run func(f F, a, b string) error, want string) call {
		return call{name: name, paths: n, run: func(f F, a, b string, _ S) (string, error) { return "", run(f, a, b) }, want: func(a, b string) string { return fmt.Sprintf(want, a, b) }}
	}
	return []call{
		one("Chmod", false, func(f F, a string) (string, error) { return "", f.Chmod(a, 0o641) }, "Chmod %q -rw-r----x"),
		one("Chown", false, func(f F, a string) (string, error) { return "", f.Chown(a, 3, 4) }, "Chown %q 3 4"),
		one("Lchown", false, func(f F, a string) (string, error) { return "", f.Lchown(a, 5, -1) }, "Lchown %q 5 -1"),
		one("Chtimes", false, func(f F, a string) (string, error) { return "", f.Chtimes(a, t1, t2) }, "Chtimes %q 11 22"),
		one("Create", false, func(f F, a string) (string, error) { return fileRes(f.Create(a)) }, "Create %q"),
		one("Mkdir", false, func(f F, a string) (string, error) { return "", f.Mkdir(a, 0o710) }, "Mkdir %q -rwx--x---"),
		one("MkdirAll", false, func(f F, a string) (string, error) { return "", f.MkdirAll(a, 0o701) }, "MkdirAll %q -rwx-----x"),
		one("Remove", false, func(f F, a string) (string, error) { return "", f.Remove(a) }, "Remove %q"),
		one("RemoveAll", false, func(f F, a string) (string, error) { return "", f.RemoveAll(a) }, "RemoveAll %q"),
		one("OpenFile", false, func(f F, a string) (string, error) {
			return fileRes(f.OpenFile(a, os.O_RDWR|os.O_EXCL|os.O_CREATE, 0o640))
		}, "OpenFile %q "+fmt.Sprintf("%x", os.O_RDWR|os.O_EXCL|os.O_CREATE)+" -rw-r-----"),
		one("OpenFile rdonly", true, func(f F, a string) (string, error) {
			return fileRes(f.OpenFile(a, os.O_RDONLY|os.O_EXCL, 0o604))
		}, "OpenFile %q "+fmt.Sprintf("%x", os.O_RDONLY|os.O_EXCL)+" -rw----r--"),
		one("Open", true, func(f F, a string) (string, error) { return fileRes(f.Open(a)) }, "Open %q"),
		one("Stat", true, func(f F, a string) (string, error) { return res(f.Stat(a)) }, "Stat %q"),
		one("Lstat", true, func(f F, a string) (string, error) { return res(f.Lstat(a)) }, "Lstat %q"),
		one("ReadLink", true, func(f F, a string) (string, error) { return res(f.ReadLink(a)) }, "ReadLink %q"),
		two("Rename", 2, func(f F, a, b string) error { return f.Rename(a, b) }, "Rename %q %q"),
		two("Link", 2, func(f F, a, b string) error { return f.Link(a, b) }, "Link %q %q"),
		// The target is opaque.
		{name: "Symlink", paths: -1, run: func(f F, a, b string, _ S) (string, error) { return "", f.Symlink(b, a) }, want: func(a, b string) string { return fmt.Sprintf("Symlink %q %q", b, a) }},
		{name: "Close", read: true, run: func(f F, a, b string, _ S) (string, error) { return "", f.Close() }, want: func(a, b string) string { return "Close" }},
		{name: "OpenRoot", paths: 1, read: true, run: func(f F, a, b string, s S) (string, error) {
			r, err := s(a)
			if err != nil {
				return "", err
			}
			// The sub-root translates and forwards as well.
			_ = r.Chmod("./q//r", 0o600)
			_, _ = r.Stat("./q//r")
			return "root", nil
		}, want: func(a, b string) string { return fmt.Sprintf("OpenRoot %q", a) }},
	}
}

// wrapper is one forwarding wrapper over the spy.
type wrapper struct {
	name string
	mk   func(s *spy) (vroot.Fs[vroot.File], func(string) (vroot.Fs[vroot.File], error))
	// tr translates a path, or tells that it is refused without a call.
	tr func(p string) (string, bool)
	ro bool
	// sub is what the sub-root's probe ("./q//r") arrives as.
	sub string
}

func subOf[F vroot.File, R vroot.Root[F, R]](r R) func(string) (vroot.Fs[vroot.File], error) {
	return func(n string) (vroot.Fs[vroot.File], error) {
		x, err := r.OpenRoot(n)
		if err != nil {
			return nil, err
		}
		return vroot.Widen[F](x), nil
	}
}

func local(p string) bool {
	d := 0
	if path.IsAbs(p) || p == "" {
		return false
	}
	return p != ".." && !strings.HasPrefix(p, "../") && d == 0
}

func wrappers() []wrapper {
	type F = vroot.Fs[vroot.File]
	clean := func(p string) (string, bool) { return path.Clean(p), true }
	same := func(p string) (string, bool) { return p, true }
	prefix := func(p string) (string, bool) {
		p = path.Clean(p)
		return path.Join("x/y", p), local(p)
	}
	none := func(string) (F, error) { return nil, nil }
	return []wrapper{
		{name: "Widen", tr: same, sub: "./q//r", mk: func(s *spy) (F, func(string) (F, error)) { return vroot.Widen[*spyFile](s), subOf[*spyFile](s) }},
		{name: "PathPrefixFs", tr: prefix, mk: func(s *spy) (F, func(string) (F, error)) {
			keep := s.fail
			s.fail = nil
			w, err := vroot.NewPathPrefixFs[*spyFile](s, "x/./y/")
			if err != nil {
				panic(err)
			}
			s.fail = keep
			*s.calls = nil
			return vroot.Widen[*spyFile](w), nil
		}},
		{name: "Sub", tr: prefix, mk: func(s *spy) (F, func(string) (F, error)) {
			keep := s.fail
			s.fail = nil
			w, err := vroot.Sub[*spyFile](s, "x/./y/")
			if err != nil {
				panic(err)
			}
			s.fail = keep
			*s.calls = nil
			return vroot.Widen(w), nil
		}},
		{name: "PathNormalizerFs", tr: clean, mk: func(s *spy) (F, func(string) (F, error)) {
			return vroot.Widen[*spyFile](vroot.NewPathNormalizerFs[*spyFile](s)), nil
		}},
		{name: "PathNormalizerRoot", tr: clean, sub: "q/r", mk: func(s *spy) (F, func(string) (F, error)) {
			r := vroot.NewPathNormalizerRoot[*spyFile](s)
			return vroot.Widen[*spyFile](r), subOf[*spyFile](r)
		}},
		{name: "PathLocalizerFs", tr: clean, mk: func(s *spy) (F, func(string) (F, error)) {
			return vroot.Widen[*spyFile](vroot.NewPathLocalizerFs[*spyFile](s)), nil
		}},
		{name: "PathLocalizerRoot", tr: clean, sub: "q/r", mk: func(s *spy) (F, func(string) (F, error)) {
			r := vroot.NewPathLocalizerRoot[*spyFile](s)
			return vroot.Widen[*spyFile](r), subOf[*spyFile](r)
		}},
		{name: "ReadOnlyFs", tr: same, ro: true, mk: func(s *spy) (F, func(string) (F, error)) {
			return vroot.Widen[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[*spyFile](s)), nil
		}},
		{name: "ReadOnlyRoot", tr: same, ro: true, sub: "./q//r", mk: func(s *spy) (F, func(string) (F, error)) {
			r := vroot.NewReadOnlyRoot[*spyFile](s)
			return vroot.Widen[*vroot.ReadOnlyFile](r), subOf[*vroot.ReadOnlyFile](r)
		}},
		{name: "ReadOnlyFs(PathPrefixFs)", tr: prefix, ro: true, mk: func(s *spy) (F, func(string) (F, error)) {
			keep := s.fail
			s.fail = nil
			w, err := vroot.NewPathPrefixFs[*spyFile](s, "x/y")
			if err != nil {
				panic(err)
			}
			s.fail = keep
			*s.calls = nil
			return vroot.Widen[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[*spyFile](w)), none
		}},
	}
}

var wrapPaths = []string{"a", "a/b", "./a", "a//b/", "a/../b", ".", "", "a/.", "..", "../a", "/a", "a/../..", "..a", "...", "x/y", "a/..b", ".a", "./", "./.a", "a b\\c"}

// forwarding checks one wrapper method call for exact translation.
func forwarding(c *core.C) {
	ws := wrappers()
	w := ws[c.Choose(len(ws))]
	cs := calls()
	k := cs[c.Choose(len(cs))]
	var fail error
	switch c.Choose(4) {
	case 1:
		fail = errSpy
	case 2:
		fail = &fs.PathError{Op: "o", Path: "p", Err: fs.ErrNotExist}
	case 3:
		fail = &os.LinkError{Op: "o", Old: "p", New: "q", Err: vroot.ErrPathEscapes}
	}
	a, b := "", ""
	if k.paths != 0 {
		a = wrapPaths[c.Choose(len(wrapPaths))]
	}
	if k.paths == 2 || k.paths == -1 {
		b = wrapPaths[c.Choose(len(wrapPaths))]
	}
	var log []string
	s := &spy{calls: &log, fail: fail}
	f, sub := w.mk(s)
	if k.name == "OpenRoot" && w.sub == "" {
		c.Prune()
	}
	c.Step()
	c.Logf("%s.%s(%q, %q), inner error %v", w.name, k.name, a, b, fail)
	got, err := k.run(f, a, b, sub)
	c.Logf("-> %q, %v; inner calls %q", got, err, log)
	bad := func(format string, x ...any) {
		c.Fail("forward:"+w.name+":"+k.name, "%s.%s(%q, %q) with inner error %v: %s (inner calls %q, result %q, %v)", w.name, k.name, a, b, fail, fmt.Sprintf(format, x...), log, got, err)
	}
	if w.ro && !k.read {
		if len(log) != 0 {
			bad("reached the wrapped file system")
		}
		if !errors.Is(err, syscall.EROFS) || got != "" {
			bad("a read-only file system answers EROFS and nothing else")
		}
		shape(bad, k.name, a, b, err)
		return
	}
	ta, ok := w.tr(a)
	tb := b
	if k.paths == 2 {
		var ok2 bool
		tb, ok2 = w.tr(b)
		ok = ok && ok2
	}
	if k.name == "Close" {
		ok = true
	}
	if k.name == "RemoveAll" && strings.Contains(w.name, "Prefix") || k.name == "RemoveAll" && w.name == "Sub" {
		if path.Clean(a) == "." {
			if err == nil || len(log) != 0 {
				bad("the prefix itself must not be removed")
			}
			return
		}
	}
	if k.name == "RemoveAll" && strings.HasSuffix(a, "/.") && w.name != "Widen" {
		// os.RemoveAll refuses these; refusing or cleaning are both fine.
		return
	}
	if got == "<nil>" {
		got = ""
	}
	if !ok {
		if len(log) != 0 {
			bad("a path that leaves the prefix was forwarded")
		}
		if !errors.Is(err, vroot.ErrPathEscapes) || got != "" {
			bad("want ErrPathEscapes and no value")
		}
		shape(bad, k.name, a, b, err)
		return
	}
	want := []string{k.want(ta, tb)}
	if k.name == "OpenRoot" && fail == nil {
		want = append(want, "sub("+ta+").Chmod \""+w.sub+"\" -rw-------", "sub("+ta+").Stat \""+w.sub+"\"")
		if w.ro {
			want = append(want[:1], want[2])
		}
	}
	if strings.Join(want, "\n") != strings.Join(log, "\n") {
		bad("want inner calls %q", want)
	}
	if fail != nil {
		if err != fail {
			bad("the inner error is to be returned unchanged")
		}
		if got != "" && got != "<nil>" {
			bad("a value came with the error")
		}
		return
	}
	if err != nil {
		bad("unexpected error")
	}
	switch k.name {
	case "Create", "Open", "OpenFile", "OpenFile rdonly":
		if got != "file "+ta {
			bad("not the inner file")
		}
	case "Stat", "Lstat":
		if got != "{"+ta+"}" {
			bad("not the inner info")
		}
	case "ReadLink":
		if got != "t:"+ta {
			bad("not the inner target")
		}
	}
}

// shape checks that an error made by the wrapper itself names the call.
func shape(bad func(string, ...any), method, a, b string, err error) {
	switch method {
	case "Rename", "Link", "Symlink":
		var le *os.LinkError
		if !errors.As(err, &le) {
			bad("want a LinkError")
			return
		}
		o, n := a, b
		if method == "Symlink" {
			o, n = b, a
		}
		if le.Old != o || le.New != n {
			bad("the LinkError names %q and %q", le.Old, le.New)
		}
	default:
		var pe *fs.PathError
		if !errors.As(err, &pe) {
			bad("want a PathError")
			return
		}
		if pe.Path != a {
			bad("the PathError names %q", pe.Path)
		}
	}
}

type fileCall struct {
	name string
	read bool
	run  func(f vroot.File) (string, error)
	want string
	val  string
}

func fileCalls() []fileCall {
	type F = vroot.File
	names := func(es []fs.DirEntry, err error) (string, error) {
		var s []string
		for _, e := range es {
			s = append(s, e.Name())
		}
		return strings.Join(s, " "), err
	}
	return []fileCall{
		{"Chmod", false, func(f F) (string, error) { return "", f.Chmod(0o640) }, "Chmod -rw-r-----", ""},
		{"Chown", false, func(f F) (string, error) { return "", f.Chown(1, -1) }, "Chown 1 -1", ""},
		{"Truncate", false, func(f F) (string, error) { return "", f.Truncate(9) }, "Truncate 9", ""},
		{"Write", false, func(f F) (string, error) { return res(f.Write([]byte("abc"))) }, "Write abc", "3"},
		{"WriteAt", false, func(f F) (string, error) { return res(f.WriteAt([]byte("abc"), 6)) }, "WriteAt abc 6", "3"},
		{"WriteString", false, func(f F) (string, error) { return res(f.WriteString("abc")) }, "WriteString abc", "3"},
		{"Sync", false, func(f F) (string, error) { return "", f.Sync() }, "Sync", ""},
		{"Close", true, func(f F) (string, error) { return "", f.Close() }, "Close", ""},
		{"Read", true, func(f F) (string, error) {
			b := make([]byte, 2)
			n, err := f.Read(b)
			return fmt.Sprintf("%d %q", n, b[:n]), err
		}, "Read 2", `1 "R"`},
		{"ReadAt", true, func(f F) (string, error) {
			b := make([]byte, 2)
			n, err := f.ReadAt(b, 4)
			return fmt.Sprintf("%d %q", n, b[:n]), err
		}, "ReadAt 2 4", `1 "A"`},
		{"ReadDir", true, func(f F) (string, error) { return names(f.ReadDir(3)) }, "ReadDir 3", "e2 e1"},
		{"Readdir", true, func(f F) (string, error) {
			es, err := f.Readdir(3)
			var s []string
			for _, e := range es {
				if e == nil {
					s = append(s, "nil")
					continue
				}
				s = append(s, e.Name())
			}
			return strings.Join(s, " "), err
		}, "Readdir 3", "e2 e1"},
		{"Readdirnames", true, func(f F) (string, error) {
			ns, err := f.Readdirnames(3)
			return strings.Join(ns, " "), err
		}, "Readdirnames 3", "e2 e1"},
		{"Seek", true, func(f F) (string, error) { return res(f.Seek(4, 1)) }, "Seek 4 1", "5"},
		{"Stat", true, func(f F) (string, error) { return res(f.Stat()) }, "Stat", "{n}"},
		{"Fd", true, func(f F) (string, error) { return fmt.Sprint(f.Fd()), nil }, "Fd", "77"},
		{"Name", true, func(f F) (string, error) { return f.Name(), nil }, "", "n"},
	}
}

// fileForwarding checks the file wrappers.
func fileForwarding(c *core.C) {
	cs := fileCalls()
	k := cs[c.Choose(len(cs))]
	kind := core.Pick(c, "ReadOnlyFile", "via ReadOnlyFs", "ExpandFsFile", "Expand(Narrow)")
	var fail error
	if c.Bool() {
		fail = errSpy
	}
	var log []string
	s := &spy{calls: &log, fail: fail}
	inner := &spyFile{s, "n"}
	var f vroot.File
	switch kind {
	case "ReadOnlyFile":
		r, err := vroot.NewReadOnlyFile(inner, nil)
		if err != nil {
			c.Fail("file:"+kind, "NewReadOnlyFile: %v", err)
		}
		f = r
	case "via ReadOnlyFs":
		s.fail = nil
		r, err := vroot.NewReadOnlyFs[*spyFile](s).Open("n")
		if err != nil {
			c.Fail("file:"+kind, "Open: %v", err)
		}
		s.fail = fail
		f = r
	case "ExpandFsFile":
		f = vroot.ExpandFsFile(inner, "n")
	case "Expand(Narrow)":
		f = vroot.ExpandFsFile(vroot.NarrowFile(inner), "n")
	}
	log = nil
	c.Step()
	got, err := k.run(f)
	c.Logf("%s.%s with inner error %v: %q %v, inner calls %q", kind, k.name, fail, got, err, log)
	bad := func(format string, x ...any) {
		c.Fail("file:"+kind+":"+k.name, "%s.%s with inner error %v: %s (inner calls %q, result %q %v)", kind, k.name, fail, fmt.Sprintf(format, x...), log, got, err)
	}
	if !k.read {
		if len(log) != 0 {
			bad("reached the wrapped file")
		}
		if !errors.Is(err, syscall.EPERM) || (got != "" && got != "0") {
			bad("a read-only file answers EPERM and nothing else")
		}
		return
	}
	if k.name == "Name" {
		if got != "n" || len(log) != 0 {
			bad("want the name")
		}
		return
	}
	if k.name == "Fd" {
		// The narrow file hides its descriptor.
		if got != "77" && !(kind == "Expand(Narrow)" && got == fmt.Sprint(^uintptr(0))) {
			bad("want the inner descriptor or the invalid one")
		}
		return
	}
	want := "file(n)." + k.want
	if strings.HasPrefix(kind, "Expand") && (k.name == "Readdir" || k.name == "Readdirnames") {
		want = "file(n).ReadDir 3"
		if len(log) == 1 && log[0] == "file(n)."+k.want {
			want = log[0]
		}
	}
	if strings.Join(log, "\n") != want {
		bad("want inner call %q", want)
	}
	if fail != nil {
		if err != fail {
			bad("the inner error is to be returned unchanged")
		}
		return
	}
	if err != nil || got != k.val {
		bad("want %q", k.val)
	}
}

// helpers checks vroot.ReadDir, ReadFile, WriteFile and Sub over an inner file
// system with or without native support.
func helpers(c *core.C) {
	var log []string
	s := &spy{calls: &log}
	k := core.Pick(c, "ReadDir", "ReadFile", "WriteFile")
	native := c.Bool()
	wide := c.Bool()
	failAt := c.Choose(4) // the failing call, 0 for none
	a := core.Pick(c, "a", "a/b", "..", ".")
	n := 0
	f := &scripted{spy: s, failAt: failAt, n: &n}
	var fsys vroot.Fs[*scriptFile] = f
	if native {
		fsys = nativeFs{f}
	}
	type F = vroot.Fs[vroot.File]
	var got string
	var err error
	var w F
	if wide {
		w = vroot.Widen(fsys)
	}
	c.Step()
	switch k {
	case "ReadDir":
		var es []fs.DirEntry
		if wide {
			es, err = vroot.ReadDir(w, a)
		} else {
			es, err = vroot.ReadDir(fsys, a)
		}
		for _, e := range es {
			got += e.Name() + " "
		}
	case "ReadFile":
		var b []byte
		if wide {
			b, err = vroot.ReadFile(w, a)
		} else {
			b, err = vroot.ReadFile(fsys, a)
		}
		got = string(b)
	case "WriteFile":
		if wide {
			err = vroot.WriteFile(w, a, []byte("data"), 0o606)
		} else {
			err = vroot.WriteFile(fsys, a, []byte("data"), 0o606)
		}
	}
	c.Logf("%s native=%v widened=%v path %q, call %d fails: %q %v; inner %q", k, native, wide, a, failAt, got, err, log)
	bad := func(format string, x ...any) {
		c.Fail("helper:"+k, "%s: %s", c.History(), fmt.Sprintf(format, x...))
	}
	var want []string
	if native && k != "WriteFile" {
		want = []string{fmt.Sprintf("%s %q", k, a)}
	} else {
		switch k {
		case "ReadDir":
			want = []string{fmt.Sprintf("Open %q", a), "file.ReadDir -1", "file.Close"}
		case "ReadFile":
			want = []string{fmt.Sprintf("Open %q", a), "file.Read", "file.Read", "file.Close"}
			if failAt == 2 {
				want = []string{want[0], want[1], want[3]}
			}
		case "WriteFile":
			want = []string{fmt.Sprintf("OpenFile %q %x -rw----rw-", a, os.O_WRONLY|os.O_CREATE|os.O_TRUNC), "file.Write data", "file.Close"}
		}
		if failAt == 1 {
			want = want[:1]
		}
	}
	if strings.Join(squeeze(log), "\n") != strings.Join(squeeze(want), "\n") {
		bad("want inner calls %q", want)
	}
	failed := failAt >= 1 && failAt <= len(log)
	if failed && log[failAt-1] == "file.Close" && k != "WriteFile" {
		// Nothing is lost when closing a file that was only read fails.
		failed = false
	}
	if failed != (err != nil) {
		bad("error %v, a failure was injected: %v", err, failed)
	}
	if failed && !errors.Is(err, errSpy) {
		bad("not the inner error")
	}
	if !failed {
		switch k {
		case "ReadDir":
			if got != "e1 e2 " && !(native && got == "e2 e1 ") {
				bad("entries %q, want e1 e2 in order", got)
			}
		case "ReadFile":
			if got != "content" {
				bad("got %q", got)
			}
		}
	}
}

// squeeze drops repeated reads: how many it takes is the helper's business.
func squeeze(l []string) (out []string) {
	for i, x := range l {
		if x == "file.Read" && i > 0 && l[i-1] == x {
			continue
		}
		out = append(out, x)
	}
	return out
}

// scripted is a spy whose n-th call fails.
type scripted struct {
	*spy
	failAt int
	n      *int
}

type scriptFile struct {
	*spyFile
	s    *scripted
	read bool
}

func (s *scripted) step(format string, a ...any) error {
	_ = s.spy.rec(format, a...)
	if *s.n++; *s.n == s.failAt {
		return errSpy
	}
	return nil
}
func (s *scripted) open(err error) (*scriptFile, error) {
	if err != nil {
		return nil, err
	}
	return &scriptFile{spyFile: &spyFile{s.spy, "x"}, s: s}, nil
}
func (s *scripted) Open(n string) (*scriptFile, error)   { return s.open(s.step("Open %q", n)) }
func (s *scripted) Create(n string) (*scriptFile, error) { return s.open(s.step("Create %q", n)) }
func (s *scripted) OpenFile(n string, f int, m fs.FileMode) (*scriptFile, error) {
	return s.open(s.step("OpenFile %q %x %v", n, f, m))
}
func (f *scriptFile) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.s.step("file.ReadDir %d", n); err != nil {
		return nil, err
	}
	return []fs.DirEntry{spyInfo{"e2"}, spyInfo{"e1"}}, nil
}
func (f *scriptFile) Read(b []byte) (int, error) {
	if err := f.s.step("file.Read"); err != nil {
		return 0, err
	}
	if f.read {
		return 0, io.EOF
	}
	f.read = true
	return copy(b, "content"), nil
}
func (f *scriptFile) Write(b []byte) (int, error) {
	if err := f.s.step("file.Write %s", bytes.TrimSpace(b)); err != nil {
		return 0, err
	}
	return len(b), nil
}
func (f *scriptFile) Close() error { return f.s.step("file.Close") }

type nativeFs struct{ *scripted }

func (n nativeFs) ReadDir(name string) ([]fs.DirEntry, error) {
	if err := n.step("ReadDir %q", name); err != nil {
		return nil, err
	}
	return []fs.DirEntry{spyInfo{"e1"}, spyInfo{"e2"}}, nil
}

func (n nativeFs) ReadFile(name string) ([]byte, error) {
	if err := n.step("ReadFile %q", name); err != nil {
		return nil, err
	}
	return []byte("content"), nil
}

func init() {
	core.Register(&core.Property{
		ID:   "V09",
		Rule: "each wrapper call reaches the wrapped file system exactly once, as the same method with every argument intact and only the path translated, and its result or error comes back unchanged; refused calls reach nothing",
		Assumptions: []string{
			"the wrapped file system is a recorder that answers with success or one of three error shapes",
			"unix path rules",
		},
		Scenarios: func(th bool) []core.Scenario {
			return []core.Scenario{
				{Name: "file system methods", Bound: "10 wrappers, 20 methods, 20 paths (pairs of paths for two-path methods), 4 inner outcomes", Body: forwarding},
				{Name: "file methods", Bound: "4 file wrappers, 17 methods, inner success or failure", Body: fileForwarding},
				{Name: "helpers", Bound: "ReadDir, ReadFile, WriteFile with and without native support, widened or not, each inner call failing in turn", Body: helpers},
			}
		},
	})
}
