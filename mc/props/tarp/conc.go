package tarp

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"strings"

	"github.com/ngicks/go-fsys-helper/tarfs"
	"verif.local/mc/core"
	"verif.local/mc/props/lin"
	"verif.local/mc/vsched"
)

// T03: one archive, and its open files, used by several goroutines.

// pausing is an archive whose every read is a scheduling point.
type pausing struct{ r *bytes.Reader }

func (p pausing) ReadAt(b []byte, off int64) (int, error) {
	vsched.SyncPoint()
	return p.r.ReadAt(b, off)
}

var concArchive = func() []byte {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	for _, h := range []struct {
		h tar.Header
		b string
	}{
		{tar.Header{Name: "d/", Typeflag: tar.TypeDir, Mode: 0o755}, ""},
		{tar.Header{Name: "d/x", Typeflag: tar.TypeReg, Mode: 0o644, Size: 2}, "xy"},
		{tar.Header{Name: "d/y", Typeflag: tar.TypeReg, Mode: 0o644}, ""},
		{tar.Header{Name: "f", Typeflag: tar.TypeReg, Mode: 0o644, Size: 4}, "abcd"},
		{tar.Header{Name: "h", Typeflag: tar.TypeLink, Linkname: "f", Mode: 0o644}, ""},
		{tar.Header{Name: "s", Typeflag: tar.TypeSymlink, Linkname: "d/x", Mode: 0o777}, ""},
	} {
		if err := w.WriteHeader(&h.h); err != nil {
			panic(err)
		}
		_, _ = io.WriteString(w, h.b)
	}
	_ = w.Flush()
	return append(append(buf.Bytes(), sparseEntry(0, "sp", []frag{{1, 2}, {4, 1}}, 6, []byte("PQR"))...), make([]byte, 1024)...)
}()

type concTar struct {
	fsys *tarfs.Fs
	h    []fs.File
}

func newConcTar() lin.World {
	fsys, err := tarfs.New(pausing{bytes.NewReader(concArchive)}, &tarfs.FsOption{HandleSymlink: true})
	if err != nil {
		panic(err)
	}
	w := &concTar{fsys: fsys}
	for _, n := range []string{"f", "sp", "d"} {
		f, err := fsys.Open(n)
		if err != nil {
			panic(err)
		}
		w.h = append(w.h, f)
	}
	return w
}

type tcall struct {
	h    int // -1: a path
	kind string
	path string
	off  int64
	n    int
}

func (t tcall) String() string {
	if t.h < 0 {
		return t.kind + " " + t.path
	}
	return fmt.Sprintf("h%d.%s(%d,%d)", t.h, t.kind, t.n, t.off)
}

var tcalls = []tcall{
	{0, "read", "", 0, 2}, {0, "read", "", 0, 9}, {0, "readat", "", 1, 2}, {0, "seek", "", 1, io.SeekCurrent}, {0, "seek", "", -1, io.SeekEnd}, {0, "close", "", 0, 0}, {0, "stat", "", 0, 0},
	{1, "read", "", 0, 2}, {1, "read", "", 0, 9}, {1, "readat", "", 0, 6}, {1, "readat", "", 3, 2}, {1, "seek", "", 2, io.SeekStart}, {1, "close", "", 0, 0},
	{2, "readdir", "", 0, 1}, {2, "readdir", "", 0, -1}, {2, "seek", "", 0, io.SeekStart}, {2, "close", "", 0, 0}, {2, "stat", "", 0, 0},
	{-1, "all", "f", 0, 0}, {-1, "all", "h", 0, 0}, {-1, "all", "s", 0, 0}, {-1, "all", "sp", 0, 0}, {-1, "list", "d", 0, 0}, {-1, "list", ".", 0, 0},
	{-1, "lstat", "h", 0, 0}, {-1, "readlink", "s", 0, 0}, {-1, "sub", "d", 0, 0},
}

func terr(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, io.EOF):
		return "EOF"
	case errors.Is(err, fs.ErrClosed):
		return "closed"
	}
	return err.Error()
}

func (w *concTar) Do(i int) string {
	t := tcalls[i]
	if t.h < 0 {
		return w.path(t)
	}
	f := w.h[t.h]
	switch t.kind {
	case "read":
		b := make([]byte, t.n)
		n, err := f.Read(b)
		return fmt.Sprintf("%q %s", b[:n], terr(err))
	case "readat":
		b := make([]byte, t.n)
		n, err := f.(io.ReaderAt).ReadAt(b, t.off)
		return fmt.Sprintf("%q %s", b[:n], terr(err))
	case "seek":
		n, err := f.(io.Seeker).Seek(t.off, t.n)
		return fmt.Sprintf("%d %s", n, terr(err))
	case "close":
		return terr(f.Close())
	case "stat":
		fi, err := f.Stat()
		if err != nil {
			return terr(err)
		}
		return fmt.Sprint(fi.Name(), fi.Mode(), fi.Size())
	case "readdir":
		es, err := f.(fs.ReadDirFile).ReadDir(t.n)
		return fmt.Sprintf("%v %s", es, terr(err))
	}
	panic(t.kind)
}

func (w *concTar) path(t tcall) string {
	switch t.kind {
	case "all":
		b, err := fs.ReadFile(w.fsys, t.path)
		return fmt.Sprintf("%q %s", b, terr(err))
	case "list":
		es, err := fs.ReadDir(w.fsys, t.path)
		return fmt.Sprintf("%v %s", es, terr(err))
	case "lstat":
		fi, err := w.fsys.Lstat(t.path)
		if err != nil {
			return terr(err)
		}
		return fmt.Sprint(fi.Name(), fi.Mode(), fi.Size())
	case "readlink":
		l, err := w.fsys.ReadLink(t.path)
		return l + " " + terr(err)
	case "sub":
		sub, err := w.fsys.Sub(t.path)
		if err != nil {
			return terr(err)
		}
		b, err := fs.ReadFile(sub, "x")
		return fmt.Sprintf("%q %s", b, terr(err))
	}
	panic(t.kind)
}

func (w *concTar) Final() string {
	var b strings.Builder
	for i, f := range w.h {
		if i < 2 {
			n, err := f.(io.Seeker).Seek(0, io.SeekCurrent)
			fmt.Fprintf(&b, "h%d at %d %s\n", i, n, terr(err))
			continue
		}
		es, err := f.(fs.ReadDirFile).ReadDir(-1)
		fmt.Fprintf(&b, "h%d: %v %s\n", i, es, terr(err))
	}
	var names []string
	_ = fs.WalkDir(w.fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			data, err := fs.ReadFile(w.fsys, p)
			p += fmt.Sprintf("=%q %s", data, terr(err))
		}
		names = append(names, p)
		return nil
	})
	sort.Strings(names)
	return b.String() + strings.Join(names, "\n")
}

func init() {
	core.Register(&core.Property{
		ID:   "T03",
		Rule: "for every schedule within the bound, what the calls on one archive and on its open files return, and where the files' positions end, is what one of the calls' sequential orders that respects which call returned before which began gives; no schedule deadlocks, panics or has two unordered accesses to the same memory",
		Assumptions: []string{
			"sequentially consistent memory; scheduling points at every lock operation, every read of the archive and every statement of tarfs and stream that reaches memory through a pointer, field, index or slice",
			"the sequential orders run on tarfs itself, which T01 and T02 check",
		},
		Scenarios: func(th bool) (out []core.Scenario) {
			k := lin.Kit{Name: "a shared archive", Sut: newConcTar, Ref: newConcTar}
			for _, t := range tcalls {
				k.Calls = append(k.Calls, t.String())
			}
			add := func(name string, progs []lin.Prog, preempt int, stmts bool) {
				what := "locks and archive reads"
				if stmts {
					what = "statements, locks and archive reads"
				}
				out = append(out, core.Scenario{
					Name:  name,
					Bound: fmt.Sprintf("%d programs, every schedule with at most %d preemptions at %s", len(progs), preempt, what),
					Body:  lin.Body(k, progs, vsched.Options{Preempt: preempt, Stmts: stmts, MaxPoints: 20000}),
				})
			}
			d := 0
			if th {
				d = 1
			}
			file, sparse, dir := []int{0, 2, 3, 5}, []int{7, 9, 11}, []int{13, 14, 15}
			add("pairs, statement by statement", lin.Pairs(len(tcalls)), 1+d, true)
			add("pairs of handle calls, statement by statement", lin.Pairs(18), 2+d, true)
			add("pairs", lin.Pairs(len(tcalls)), 3, false)
			for _, l := range [][]int{file, sparse, dir} {
				add("two calls against one: "+k.Calls[l[0]][:2], lin.TwoOne(l, l), 1+d, true)
				add("three calls: "+k.Calls[l[0]][:2], lin.Triples(l), 2+d, false)
			}
			return out
		},
	})
}
