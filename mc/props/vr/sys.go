// Package vr checks the vroot family of file systems.
package vr

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// Sys is one file system under comparison.
type Sys struct {
	vroot.Fs[vroot.File]
	Label string
	// Sub opens a sub-root; nil when the system has none.
	Sub func(name string) (Sys, error)
	// Cleans tells that the system cleans paths lexically before using them.
	Cleans bool
}

// ofRoot adapts any Root.
func ofRoot[F vroot.File, R vroot.Root[F, R]](label string, cleans bool, r R) Sys {
	return Sys{Fs: vroot.Widen[F](r), Label: label, Cleans: cleans, Sub: func(name string) (Sys, error) {
		rr, err := r.OpenRoot(name)
		if err != nil {
			return Sys{}, err
		}
		return ofRoot[F, R](label, cleans, rr), nil
	}}
}

func ofRef(f *reffs.FS) Sys { return ofRoot[vroot.File, *reffs.FS]("ref", false, f) }

func zeroMask() *fs.FileMode { var m fs.FileMode; return &m }

type synthRoot = synthfs.Root

func newSynth() *synthfs.Root {
	r := synthfs.NewRoot("synth", &synthfs.Option{Umask: zeroMask()})
	_ = r.Chmod(".", 0o755)
	return r
}

var scratchN atomic.Int64

// scratchDir makes a fresh directory under the scratch area.
func scratchDir() string {
	d := filepath.Join(core.Scratch(), fmt.Sprint("x", scratchN.Add(1)))
	if err := os.Mkdir(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

func dropDir(d string) {
	if !strings.HasPrefix(d, core.Scratch()+"/") {
		panic("refusing to remove " + d)
	}
	_ = filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
		if err == nil && e.IsDir() {
			_ = os.Chmod(p, 0o755)
		}
		return nil
	})
	_ = os.RemoveAll(d)
}

func newOsRoot(dir string) *osfs.Root {
	r, err := osfs.NewRoot(dir)
	if err != nil {
		panic(err)
	}
	return r
}

// class maps an error to what callers can tell apart with errors.Is; fine adds
// the errno for comparisons against the kernel.
func class(err error, fine bool) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, vroot.ErrPathEscapes) || errors.Is(err, fsutil.ErrPathEscapes):
		return "escape"
	case err == io.EOF:
		return "EOF"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	case errors.Is(err, syscall.ENOTEMPTY):
		// ErrExist is the weaker statement of the same thing.
		if fine {
			return "notempty"
		}
		return "fail"
	case errors.Is(err, fs.ErrExist):
		return "exist"
	case errors.Is(err, fs.ErrClosed):
		return "closed"
	case errors.Is(err, syscall.ELOOP):
		return "loop"
	}
	var no syscall.Errno
	if fine && errors.As(err, &no) {
		return "errno:" + no.Error()
	}
	if fine && errors.Is(err, fs.ErrPermission) {
		return "errno:" + syscall.EACCES.Error()
	}
	return "fail"
}

// Op is one call on a file system.
type Op struct {
	Kind string
	A, B string
	Mode fs.FileMode
	Flag int
	Data string
}

func (o Op) String() string {
	s := o.Kind + " " + o.A
	if o.Kind == "symlink" {
		s = "symlink " + o.B + " <- " + o.A
	} else if o.B != "" {
		s += " " + o.B
	}
	if o.Flag != 0 {
		s += " " + flagString(o.Flag)
	}
	if o.Mode != 0 {
		s += fmt.Sprintf(" %o", o.Mode)
	}
	if o.Data != "" {
		s += fmt.Sprintf(" %q", o.Data)
	}
	return s
}

func flagString(f int) string {
	var out []string
	switch {
	case f&os.O_RDWR != 0:
		out = append(out, "RDWR")
	case f&os.O_WRONLY != 0:
		out = append(out, "WRONLY")
	default:
		out = append(out, "RDONLY")
	}
	for _, x := range []struct {
		b int
		s string
	}{{os.O_APPEND, "APPEND"}, {os.O_CREATE, "CREATE"}, {os.O_EXCL, "EXCL"}, {os.O_TRUNC, "TRUNC"}} {
		if f&x.b != 0 {
			out = append(out, x.s)
		}
	}
	return strings.Join(out, "|")
}

var epoch = time.Unix(1_000_000, 0)

// apply runs o and describes what the caller could observe.
func apply(s Sys, o Op, fine bool) string {
	cl := func(err error) string { return class(err, fine) }
	switch o.Kind {
	case "mkdir":
		return cl(s.Mkdir(o.A, o.Mode))
	case "mkdirall":
		return cl(s.MkdirAll(o.A, o.Mode))
	case "open":
		f, err := s.OpenFile(o.A, o.Flag, o.Mode)
		if err != nil {
			if f != nil && !isNilFile(f) {
				return "error and file"
			}
			return cl(err)
		}
		defer f.Close()
		if o.Data != "" {
			n, err := f.Write([]byte(o.Data))
			if err != nil {
				return "opened, write " + cl(err)
			}
			return fmt.Sprint("wrote ", n)
		}
		fi, err := f.Stat()
		if err != nil {
			return "opened, stat " + cl(err)
		}
		if fi.IsDir() {
			return "opened dir"
		}
		return "opened file"
	case "create":
		f, err := s.Create(o.A)
		if err != nil {
			return cl(err)
		}
		defer f.Close()
		_, err = f.WriteString(o.Data)
		return "created " + cl(err)
	case "read":
		f, err := s.Open(o.A)
		if err != nil {
			return cl(err)
		}
		defer f.Close()
		b, err := io.ReadAll(f)
		if err != nil {
			return "read " + cl(err)
		}
		return "read " + string(b)
	case "copyout":
		f, err := s.Open(o.A)
		if err != nil {
			return cl(err)
		}
		defer f.Close()
		var b strings.Builder
		n, err := io.Copy(&b, f)
		if err == nil && int(n) != b.Len() {
			return fmt.Sprintf("copied out %d of %q", n, b.String())
		}
		if err != nil {
			return "copied out " + cl(err)
		}
		return "copied out " + b.String()
	case "copyin":
		f, err := s.OpenFile(o.A, o.Flag, o.Mode)
		if err != nil {
			return cl(err)
		}
		defer f.Close()
		n, err := io.Copy(f, struct{ io.Reader }{strings.NewReader(o.Data)})
		if err != nil {
			return "copied in " + cl(err)
		}
		return fmt.Sprint("copied in ", n)
	case "readdir":
		f, err := s.Open(o.A)
		if err != nil {
			return cl(err)
		}
		defer f.Close()
		es, err := f.ReadDir(-1)
		if err != nil {
			return "readdir " + cl(err)
		}
		var out []string
		for _, e := range es {
			out = append(out, e.Name()+":"+e.Type().String())
		}
		sort.Strings(out)
		return "readdir " + strings.Join(out, " ")
	case "listdir":
		es, err := vroot.ReadDir(s.Fs, o.A)
		if err != nil {
			return cl(err)
		}
		var out []string
		for _, e := range es {
			out = append(out, e.Name()+":"+e.Type().String())
		}
		return "listdir " + strings.Join(out, " ")
	case "readfile":
		b, err := vroot.ReadFile(s.Fs, o.A)
		if err != nil {
			return cl(err)
		}
		return "readfile " + string(b)
	case "stat", "lstat":
		f := s.Stat
		if o.Kind == "lstat" {
			f = s.Lstat
		}
		fi, err := f(o.A)
		if err != nil {
			return cl(err)
		}
		return o.Kind + " " + describe(fi)
	case "readlink":
		t, err := s.ReadLink(o.A)
		if err != nil {
			return cl(err)
		}
		return "link " + t
	case "symlink":
		return cl(s.Symlink(o.B, o.A))
	case "link":
		return cl(s.Link(o.A, o.B))
	case "rename":
		return cl(s.Rename(o.A, o.B))
	case "remove":
		return cl(s.Remove(o.A))
	case "removeall":
		return cl(s.RemoveAll(o.A))
	case "chmod":
		return cl(s.Chmod(o.A, o.Mode))
	case "chown":
		return cl(s.Chown(o.A, os.Getuid(), os.Getgid()))
	case "lchown":
		return cl(s.Lchown(o.A, os.Getuid(), os.Getgid()))
	case "chtimes":
		return cl(s.Chtimes(o.A, epoch, epoch))
	case "openroot":
		if s.Sub == nil {
			return "n/a"
		}
		r, err := s.Sub(o.A)
		if err != nil {
			return cl(err)
		}
		defer r.Close()
		return "root " + dump(r, fine)
	}
	panic(o.Kind)
}

func isNilFile(f vroot.File) bool {
	defer func() { _ = recover() }()
	return fmt.Sprintf("%v", f) == "<nil>"
}

// describe renders what a stat shows; sizes of directories and links and the
// modes of links are the implementation's business.
func describe(fi fs.FileInfo) string {
	switch {
	case fi.IsDir():
		return fmt.Sprintf("dir %o", fi.Mode().Perm())
	case fi.Mode()&fs.ModeSymlink != 0:
		return "symlink"
	}
	return fmt.Sprintf("file %v %o %d", fi.Mode().Type(), fi.Mode().Perm(), fi.Size())
}

// dump lists everything reachable without following links, and what following
// each link shows, through the public interface.
func dump(s Sys, fine bool) string {
	var b strings.Builder
	var walk func(p string)
	walk = func(p string) {
		fi, err := s.Lstat(p)
		if err != nil {
			fmt.Fprintf(&b, "%s: lstat %s\n", p, class(err, fine))
			return
		}
		if p != "." && fi.Name() != path.Base(p) {
			fmt.Fprintf(&b, "%s: lstat names it %q\n", p, fi.Name())
		}
		switch {
		case fi.IsDir():
			fmt.Fprintf(&b, "%s %s\n", p, describe(fi))
			f, err := s.Open(p)
			if err != nil {
				fmt.Fprintf(&b, "%s: open %s\n", p, class(err, fine))
				return
			}
			es, err := f.Readdir(-1)
			_ = f.Close()
			if err != nil {
				fmt.Fprintf(&b, "%s: readdir %s\n", p, class(err, fine))
			}
			sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
			for _, e := range es {
				q := path.Join(p, e.Name())
				if l, err := s.Lstat(q); err == nil && describe(l) != describe(e) {
					fmt.Fprintf(&b, "%s: listed as %s but is %s\n", q, describe(e), describe(l))
				}
				walk(q)
			}
		case fi.Mode()&fs.ModeSymlink != 0:
			t, err := s.ReadLink(p)
			fmt.Fprintf(&b, "%s -> %s %s", p, t, class(err, fine))
			fi, err := s.Stat(p)
			if err != nil {
				fmt.Fprintf(&b, " = %s\n", class(err, fine))
				return
			}
			if fi.Name() != path.Base(p) && fi.IsDir() {
				// Stat through a link reports the name it was asked for; roots differ
				// here and nobody relies on it.
				_ = fi
			}
			fmt.Fprintf(&b, " = %s\n", describe(fi))
		default:
			fmt.Fprintf(&b, "%s %s %s\n", p, describe(fi), apply(s, Op{Kind: "read", A: p}, fine))
		}
	}
	walk(".")
	return b.String()
}

// seed builds the same start state in any system. Lines: "d/" directory,
// "f=content" file, "l->target" symlink, "n&f" hard link.
func seed(s vroot.Fs[vroot.File], lines []string) {
	must := func(err error) {
		if err != nil {
			panic(fmt.Sprintf("seed %v: %v", lines, err))
		}
	}
	for _, l := range lines {
		if a, b, ok := strings.Cut(l, "->"); ok {
			must(s.Symlink(b, a))
			continue
		}
		if a, b, ok := strings.Cut(l, "&"); ok {
			must(s.Link(b, a))
			continue
		}
		if a, b, ok := strings.Cut(l, "="); ok {
			f, err := s.OpenFile(a, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0o644)
			must(err)
			_, err = f.WriteString(b)
			must(err)
			must(f.Close())
			continue
		}
		must(s.Mkdir(strings.TrimSuffix(l, "/"), 0o755))
	}
}

func bound(trees, ops, depth int, dedup bool) string {
	s := fmt.Sprintf("%d start trees, every sequence of %d operations out of %d", trees, depth, ops)
	if dedup {
		s += ", states reached again with no more steps left not expanded"
	}
	return s
}
