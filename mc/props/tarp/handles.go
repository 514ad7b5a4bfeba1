package tarp

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"slices"
	"strings"
	"syscall"
	"testing/fstest"

	"github.com/ngicks/go-fsys-helper/tarfs"
	"verif.local/mc/core"
)

// flaky is an archive whose reads can be made to fail.
type flaky struct {
	b    []byte
	fail bool
	nth  int  // fail the read that brings this to zero
	part bool // after giving half of the bytes
}

var errMedium = errors.New("the medium fails")

func (f *flaky) ReadAt(p []byte, off int64) (int, error) {
	if f.nth > 0 {
		if f.nth--; f.nth == 0 {
			if f.part {
				n, _ := bytes.NewReader(f.b).ReadAt(p[:len(p)/2], off)
				return n, errMedium
			}
			return 0, errMedium
		}
	}
	if f.fail {
		return 0, errMedium
	}
	return bytes.NewReader(f.b).ReadAt(p, off)
}

// tarBox is an archive holding files and directories of every kind.
func tarBox() []byte {
	var buf bytes.Buffer
	file := func(name, body string) {
		buf.Write(rawHeader(name, '0', len(body), false, nil))
		buf.Write(pad([]byte(body)))
	}
	link := func(name string, typ byte, to string) {
		buf.Write(rawHeader(name, typ, 0, false, func(h []byte) { copy(h[157:], to) }))
	}
	dir := func(name string) { buf.Write(rawHeader(name, '5', 0, false, nil)) }
	dir("d/")
	file("d/plain", "abcdefg")
	file("d/empty", "")
	link("d/hard", '1', "d/plain")
	link("d/soft", '2', "plain")
	for i, n := range []string{"d/sp0", "d/sp1", "d/sp2", "d/sp3"} {
		buf.Write(sparseEntry(i, n, []frag{{2, 3}, {6, 1}}, 7, []byte("XYZW")))
	}
	dir("d/none/")
	dir("e/")
	file("e/1", "one")
	file("e/2", "two")
	file("e/sub/3", "three")
	link("l", '2', "e")
	buf.Write(make([]byte, 1024))
	return buf.Bytes()
}

const sparseBody = "\x00\x00XYZ\x00W"

// target is something of the box that can be opened.
type target struct {
	name string // as seen from the root of the archive
	body string
	kids []string // a directory's
}

var targets = []target{
	{"d/plain", "abcdefg", nil}, {"d/empty", "", nil}, {"d/hard", "abcdefg", nil}, {"d/soft", "abcdefg", nil},
	{"d/sp0", sparseBody, nil}, {"d/sp1", sparseBody, nil}, {"d/sp2", sparseBody, nil}, {"d/sp3", sparseBody, nil},
	{"e/1", "one", nil},
	{"d/none", "", []string{}},
	{"e", "", []string{"1", "2", "sub"}}, {"l", "", []string{"1", "2", "sub"}}, {"e/sub", "", []string{"3"}},
	{".", "", []string{"d", "e", "l"}},
}

// tarHandle is a handle and what it must be like.
type tarHandle struct {
	t      target
	f      fs.File
	pos    int // in the body, or in the listing
	unsure bool
	closed bool
}

type hcall struct {
	op     string
	n, off int
}

var fileCalls = []hcall{
	{"read", 2, 0}, {"read", 100, 0}, {"read", 0, 0}, {"readat", 3, 1}, {"readat", 3, 6}, {"readat", 3, 7}, {"readat", 2, -1},
	{"seek", 0, 1}, {"seek", 1, 1}, {"seek", 1, -1}, {"seek", 2, -2}, {"seek", 2, 5}, {"seek", 1, -100}, {"seek", 9, 0}, {"stat", 0, 0}, {"close", 0, 0},
}

var dirCalls = []hcall{
	{"readdir", 1, 0}, {"readdir", 2, 0}, {"readdir", -1, 0}, {"readdir", 0, 0}, {"seek", 0, 0}, {"seek", 2, 0},
	{"seek", 0, -1}, {"seek", 9, 0}, {"read", 3, 0}, {"readat", 3, 0}, {"stat", 0, 0}, {"close", 0, 0},
}

// do makes one call and checks what it gives.
func (h *tarHandle) do(c *core.C, who string, k hcall, src *flaky) {
	c.Logf("%s %s %d %d", who, k.op, k.n, k.off)
	what := fmt.Sprintf("%s of %q", k.op, h.t.name)
	isDir := h.t.kids != nil
	if h.closed && k.op != "close" {
		var err error
		n := 0
		switch k.op {
		case "read":
			n, err = h.f.Read(make([]byte, k.n))
		case "readat":
			n, err = h.f.(io.ReaderAt).ReadAt(make([]byte, k.n), int64(k.off))
		case "seek":
			_, err = h.f.(io.Seeker).Seek(int64(k.off), k.n)
		case "stat":
			_, err = h.f.Stat()
		case "readdir":
			var es []fs.DirEntry
			es, err = h.f.(fs.ReadDirFile).ReadDir(k.n)
			n = len(es)
		}
		if !errors.Is(err, fs.ErrClosed) || n != 0 {
			c.Fail("tar-closed", "%s after Close gives %d, %v", what, n, err)
		}
		return
	}
	switch k.op {
	case "close":
		err := h.f.Close()
		if err != nil && !(h.closed && errors.Is(err, fs.ErrClosed)) {
			c.Fail("tar-close", "%s: %v", what, err)
		}
		h.closed = true
	case "stat":
		st, err := h.f.Stat()
		if err != nil || st.IsDir() != isDir || !isDir && st.Size() != int64(len(h.t.body)) {
			c.Fail("tar-stat", "%s: %v, %v", what, st, err)
		}
	case "read", "readat":
		p := bytes.Repeat([]byte{'?'}, k.n)
		off := h.pos
		var n int
		var err error
		if k.op == "read" {
			n, err = h.f.Read(p)
		} else {
			off = k.off
			n, err = h.f.(io.ReaderAt).ReadAt(p, int64(off))
		}
		if isDir {
			if n != 0 || !errors.Is(err, syscall.EISDIR) {
				c.Fail("tar-dir-read", "%s gives %d, %v", what, n, err)
			}
			return
		}
		if n < 0 || n > k.n {
			c.Fail("tar-read", "%s of %d bytes gives %d", what, k.n, n)
		}
		if off < 0 {
			if n != 0 || err == nil {
				c.Fail("tar-read-negative", "%s at %d gives %d, %v", what, off, n, err)
			}
			return
		}
		rest := ""
		if off < len(h.t.body) {
			rest = h.t.body[off:]
		}
		if src.fail {
			// A read that needs nothing from the medium may do.
			if n > len(rest) || string(p[:n]) != rest[:n] || n < min(k.n, len(rest)) && !errors.Is(err, errMedium) && !(k.op == "read" && n > 0) {
				c.Fail("tar-read-failing", "%s at %d of a failing archive gives %q, %v", what, off, p[:n], err)
			}
		} else {
			full := min(k.n, len(rest))
			switch {
			case n > len(rest) || string(p[:n]) != rest[:n]:
				c.Fail("tar-read", "%s at %d gives %q of %q", what, off, p[:n], rest)
			case err != nil && err != io.EOF:
				c.Fail("tar-read", "%s at %d: %v", what, off, err)
			case err == io.EOF && n < len(rest):
				c.Fail("tar-early-eof", "%s at %d gives %q of %q and EOF", what, off, p[:n], rest)
			case k.n > 0 && n == 0 && err == nil:
				c.Fail("tar-read-nothing", "%s at %d gives nothing and no error", what, off)
			case k.op == "readat" && (n < full || n < k.n && err == nil):
				c.Fail("tar-readat", "%s of %d at %d gives %q, %v of %q", what, k.n, off, p[:n], err, rest)
			}
			if strings.Trim(string(p[n:]), "?") != "" && k.op == "read" && n > 0 {
				c.Outcome("scratch used")
			}
		}
		if k.op == "read" {
			h.pos += n
		}
	case "seek":
		got, err := h.f.(io.Seeker).Seek(int64(k.off), k.n)
		if isDir {
			bad := k.n > 2 || k.n == 0 && k.off < 0
			if bad != (err != nil) {
				c.Fail("tar-dir-seek", "%s by %d from %d: %v", what, k.off, k.n, err)
			}
			switch {
			case bad:
				h.unsure = true // where a refused seek leaves the listing is not laid down
			case k.n == 0:
				h.pos, h.unsure = 0, false
			default:
				h.pos, h.unsure = len(h.t.kids), false
			}
			return
		}
		base := []int{0, h.pos, len(h.t.body)}
		if k.n > 2 || base[k.n]+k.off < 0 {
			if err == nil {
				c.Fail("tar-seek", "%s by %d from %d at %d gives %d", what, k.off, k.n, h.pos, got)
			}
			return
		}
		if err != nil || got != int64(base[k.n]+k.off) {
			c.Fail("tar-seek", "%s by %d from %d at %d gives %d, %v", what, k.off, k.n, h.pos, got, err)
		}
		h.pos = base[k.n] + k.off
	case "readdir":
		es, err := h.f.(fs.ReadDirFile).ReadDir(k.n)
		if h.unsure {
			c.Prune()
		}
		rest := h.t.kids[h.pos:]
		var names []string
		for _, e := range es {
			names = append(names, e.Name())
		}
		switch {
		case k.n > 0 && len(rest) == 0:
			if err != io.EOF || len(es) != 0 {
				c.Fail("tar-paging", "%s at its end gives %q, %v", what, names, err)
			}
		case err != nil:
			c.Fail("tar-paging", "%s: %v", what, err)
		case k.n <= 0 && len(es) != len(rest), k.n > 0 && (len(es) == 0 || len(es) > k.n), len(es) > len(rest):
			c.Fail("tar-paging", "%s of %d gives %q, left were %q", what, k.n, names, rest)
		case !slices.Equal(names, rest[:len(es)]):
			c.Fail("tar-paging", "%s of %d gives %q, left were %q", what, k.n, names, rest)
		}
		h.pos += len(es)
	}
}

func openTar(c *core.C, src *flaky) fs.FS {
	f, err := tarfs.New(src, &tarfs.FsOption{HandleSymlink: true})
	if err != nil {
		c.Fail("tar-new", "New: %v", err)
	}
	return f
}

func (t target) open(c *core.C, f fs.FS) *tarHandle {
	name := t.name
	if d := path.Dir(name); d != "." && c.Bool() { // through a part of the archive
		s, err := f.(fs.SubFS).Sub(d)
		if err != nil {
			c.Fail("tar-sub", "Sub(%q): %v", d, err)
		}
		f, name = s, path.Base(name)
	}
	h, err := f.Open(name)
	if err != nil {
		c.Fail("tar-open", "Open(%q): %v", name, err)
	}
	return &tarHandle{t: t, f: h}
}

// handleCalls is every sequence of calls on one handle or on two.
func handleCalls(handles, depth int, faults bool) func(c *core.C) {
	raw := tarBox()
	return func(c *core.C) {
		src := &flaky{b: raw}
		f := openTar(c, src)
		var hs []*tarHandle
		for i := 0; i < handles; i++ {
			t := core.Pick(c, targets...)
			c.Logf("handle %d is %q", i, t.name)
			hs = append(hs, t.open(c, f))
		}
		for i := 0; i < depth; i++ {
			c.Step()
			j := c.Choose(len(hs))
			if faults {
				if c.Bool() {
					src.fail = !src.fail
					c.Logf("the archive fails: %v", src.fail)
				}
			}
			calls := fileCalls
			if hs[j].t.kids != nil {
				calls = dirCalls
			}
			hs[j].do(c, fmt.Sprintf("handle %d:", j), core.Pick(c, calls...), src)
		}
	}
}

// brokenNew opens an archive of which one read fails: that is reported, and
// opening it again works.
func brokenNew(c *core.C) {
	raw, targets := tarBox(), targets
	if k := c.Choose(1 + 4*3); k > 0 {
		// One member with a map of many fragments, over several blocks in the
		// formats that keep it in blocks.
		n := []int{5, 26, 120}[(k-1)/4]
		t := target{name: "sp"}
		var frags []frag
		var data []byte
		body := make([]byte, 2*n+1)
		for i := range n {
			frags = append(frags, frag{2 * i, 1})
			data = append(data, byte('A'+i%26))
			body[2*i] = data[i]
		}
		t.body = string(body)
		raw = append(sparseEntry((k-1)%4, "sp", frags, len(body), data), make([]byte, 1024)...)
		targets = []target{t}
		c.Logf("%d fragments, format %d", n, (k-1)%4)
	}
	src := &flaky{b: raw, nth: 1 + c.Choose(200), part: c.Bool()}
	c.Logf("read %d fails (after some bytes: %v)", src.nth, src.part)
	c.Step()
	f, err := tarfs.New(src, nil)
	switch {
	case src.nth > 0:
		c.Prune()
	case err == nil:
		// A read only looked ahead: nothing may be wrong or missing.
		for _, t := range targets {
			if t.name == "d/soft" || t.name == "l" {
				continue
			}
			h := &tarHandle{t: t}
			if h.f, err = f.Open(t.name); err != nil {
				c.Fail("tar-silent-fault", "New passes over a failing read and %q does not open: %v", t.name, err)
			}
			if t.kids == nil {
				if b, err := io.ReadAll(h.f); err != nil || string(b) != t.body {
					c.Fail("tar-silent-fault", "New passes over a failing read and %q reads as %q, %v", t.name, b, err)
				}
			}
		}
	case !errors.Is(err, errMedium):
		c.Fail("tar-fault-cause", "New reports a failing read as %v", err)
	}
}

// names is every call of the file system with every kind of name.
func tarNames(c *core.C) {
	f := openTar(c, &flaky{b: tarBox()})
	kinds := map[string]string{".": "dir", "d": "dir", "e": "dir", "l": "dir link", "l/1": "file", "d/plain": "file", "d/soft": "file link"}
	if c.Bool() {
		c.Logf("in d")
		kinds = map[string]string{".": "dir", "plain": "file", "soft": "file link"}
		s, err := f.(fs.SubFS).Sub("d")
		if err != nil {
			c.Fail("tar-sub", "Sub: %v", err)
		}
		f = s
	}
	name := core.Pick(c, "", "/", "/d", "d/", "d//plain", "./d", "..", "../d", "d/../e", "d/.", ".", "plain", "d", "d/plain", "e", "missing", "d/missing", "d/plain/x", "plain/x", "l", "l/1", "soft", "d/soft")
	call := core.Pick(c, "open", "stat", "lstat", "readlink", "sub", "readfile", "readdir")
	c.Logf("%s %q", call, name)
	c.Step()
	var err error
	switch call {
	case "open":
		var h fs.File
		if h, err = f.Open(name); err == nil {
			_ = h.Close()
		}
	case "stat":
		_, err = fs.Stat(f, name)
	case "lstat":
		_, err = f.(fs.ReadLinkFS).Lstat(name)
	case "readlink":
		_, err = f.(fs.ReadLinkFS).ReadLink(name)
	case "sub":
		_, err = f.(fs.SubFS).Sub(name)
	case "readfile":
		_, err = fs.ReadFile(f, name)
	case "readdir":
		_, err = fs.ReadDir(f, name)
	}
	kind, there := kinds[name]
	switch call {
	case "readlink":
		there = strings.Contains(kind, "link")
	case "sub", "readdir":
		there = strings.Contains(kind, "dir")
	case "readfile":
		there = strings.Contains(kind, "file")
	}
	if there != (err == nil) {
		c.Fail("tar-name-accepted", "%s %q: %v", call, name, err)
	}
	if err == nil {
		return
	}
	var pe *fs.PathError
	if !errors.As(err, &pe) {
		c.Fail("tar-error-kind", "%s %q fails with %T %v", call, name, err, err)
	}
	switch {
	case !fs.ValidPath(name):
		if !errors.Is(err, fs.ErrInvalid) {
			c.Fail("tar-name-invalid", "%s %q fails with %v", call, name, err)
		}
	case strings.Contains(name, "missing"):
		if !errors.Is(err, fs.ErrNotExist) {
			c.Fail("tar-name-missing", "%s %q fails with %v", call, name, err)
		}
	}
	if pe.Path != name && !strings.Contains(err.Error(), name) {
		c.Fail("tar-error-path", "%s %q names %q: %v", call, name, pe.Path, err)
	}
}

// fstestBox lets the standard library's own test of file systems judge.
func fstestBox(c *core.C) {
	var f fs.FS
	f, err := tarfs.New(&flaky{b: tarBox()}, &tarfs.FsOption{HandleSymlink: c.Bool(), IsRooted: c.Bool()})
	if err != nil {
		c.Fail("tar-new", "New: %v", err)
	}
	want := []string{"d/plain", "d/empty", "d/hard", "d/sp0", "d/sp3", "e/sub/3"}
	if c.Bool() {
		if f, err = f.(fs.SubFS).Sub("d"); err != nil {
			c.Fail("tar-sub", "Sub: %v", err)
		}
		want = []string{"plain", "empty", "hard", "sp0", "sp3"}
	}
	c.Step()
	if err := fstest.TestFS(f, want...); err != nil {
		c.Fail("tar-fstest", "fstest: %v", err)
	}
}

func init() {
	core.Register(&core.Property{
		ID:          "T04",
		Rule:        "every sequence of calls up to the depth on handles of every kind of member (plain, empty, hard and symbolic link, four sparse formats, directories, root), opened through the archive or a part of it, with the archive failing in between; every call with every kind of name; every read of opening failing",
		Assumptions: []string{"where a refused seek leaves a directory's listing is not laid down"},
		Scenarios: func(th bool) []core.Scenario {
			d := 0
			if th {
				d = 1
			}
			return []core.Scenario{
				{Name: "one handle", Bound: fmt.Sprintf("%d calls", 3+d), Body: handleCalls(1, 3+d, false)},
				{Name: "two handles", Bound: fmt.Sprintf("%d calls", 2+d), Body: handleCalls(2, 2+d, false)},
				{Name: "failing archive", Bound: fmt.Sprintf("%d calls", 3+d), Body: handleCalls(1, 3+d, true)},
				{Name: "opening a failing archive", Bound: "every read", Body: brokenNew},
				{Name: "names", Bound: "7 calls, 23 names, 2 roots", Body: tarNames},
				{Name: "fstest", Bound: "every option", Body: fstestBox},
			}
		},
	})
}
