// Package reffs is the reference file system: a deliberately plain in-memory
// model of what a Linux directory tree confined like os.Root does. Checks use
// it as the oracle for other file systems and, with hooks, as the environment
// (faults, crashes, lost writes) the code under test runs in. Its own
// conformance to the kernel is checked by replaying the explored operation
// sequences on a real directory (property V05, scenario "kernel").
package reffs

import (
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
)

// Node is an inode.
type Node struct {
	Mode     fs.FileMode // type and permission bits
	UID, GID int
	Atime    time.Time
	Mtime    time.Time
	Data     []byte
	Synced   []byte // Data as of the last Sync
	Kids     map[string]*Node
	Target   string
	Ino      int
	parent   *Node
}

// Op is one call reaching the file system.
type Op struct {
	Name string // method; file methods carry the prefix "f."
	Path string
	To   string
	N    int // bytes for a write, size for a truncate
	Flag int
}

// FS is the file system. It is not safe for concurrent use.
type FS struct {
	Root *Node
	// Before is called ahead of every operation; an error is returned to the
	// caller in its place. For f.Write and f.WriteAt the first n bytes are
	// written all the same.
	Before func(op Op) (n int, err error)
	// After is called once an operation took effect; an error is returned to the
	// caller although the effect stands.
	After func(op Op) error
	// Frozen file systems (after a crash) refuse everything.
	Frozen bool

	Open_  int // open handles
	nextIn int
	base   *FS // non-nil: a sub-root
	label  string
}

// New returns an empty file system.
func New() *FS {
	f := &FS{label: "ref"}
	f.Root = f.node(fs.ModeDir | 0o755)
	f.Root.parent = f.Root
	return f
}

func (f *FS) top() *FS {
	if f.base != nil {
		return f.base.top()
	}
	return f
}

func (f *FS) node(m fs.FileMode) *Node {
	t := f.top()
	t.nextIn++
	n := &Node{Mode: m, Ino: t.nextIn, Mtime: time.Unix(int64(1000+t.nextIn), 0), Atime: time.Unix(1000, 0)}
	if m.IsDir() {
		n.Kids = map[string]*Node{}
	}
	return n
}

// Clone copies the tree (hard links stay shared). Hooks are not copied.
func (f *FS) Clone() *FS {
	seen := map[*Node]*Node{}
	var cp func(n, parent *Node) *Node
	cp = func(n, parent *Node) *Node {
		if c, ok := seen[n]; ok {
			return c
		}
		c := *n
		seen[n] = &c
		c.Data = append([]byte(nil), n.Data...)
		c.parent = parent
		if n.Kids != nil {
			c.Kids = map[string]*Node{}
			for k, v := range n.Kids {
				c.Kids[k] = cp(v, &c)
			}
		}
		return &c
	}
	out := &FS{nextIn: f.nextIn, label: f.label}
	out.Root = cp(f.Root, nil)
	out.Root.parent = out.Root
	return out
}

// Dump lists the tree, one line per entry, in path order.
func (f *FS) Dump() string {
	var b strings.Builder
	var walk func(n *Node, p string)
	walk = func(n *Node, p string) {
		b.WriteString(p)
		switch {
		case n.Mode.IsDir():
			b.WriteString("/ " + n.Mode.Perm().String() + "\n")
			for _, k := range Names(n) {
				walk(n.Kids[k], path.Join(p, k))
			}
		case n.Mode&fs.ModeSymlink != 0:
			b.WriteString(" -> " + n.Target + "\n")
		default:
			b.WriteString(" " + n.Mode.Perm().String() + " " + string(n.Data) + "\n")
		}
	}
	walk(f.Root, ".")
	return b.String()
}

// Names lists a directory in order.
func Names(n *Node) []string {
	var out []string
	for k := range n.Kids {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (f *FS) before(op Op) (int, error) {
	t := f.top()
	if t.Frozen {
		return 0, &fs.PathError{Op: op.Name, Path: op.Path, Err: fs.ErrClosed}
	}
	if t.Before != nil {
		n, err := t.Before(op)
		if err != nil {
			return n, &fs.PathError{Op: op.Name, Path: op.Path, Err: err}
		}
	}
	return 0, nil
}

func (f *FS) after(op Op) error {
	if t := f.top(); t.After != nil {
		if err := t.After(op); err != nil {
			return &fs.PathError{Op: op.Name, Path: op.Path, Err: err}
		}
	}
	return nil
}

const maxLinks = 40

type found struct {
	dir  *Node
	base string
	node *Node
}

// walk resolves name as the kernel would below the root, refusing to leave it.
func (f *FS) walk(name string, follow bool) (found, error) {
	if name == "" {
		return found{}, syscall.EINVAL
	}
	if strings.HasPrefix(name, "/") {
		return found{}, fsutil.ErrPathEscapes
	}
	comps := strings.Split(name, "/")
	// Escapes are refused before anything else the path may be guilty of, as
	// filepath.IsLocal does.
	depth := 0
	for _, c := range comps {
		switch c {
		case "", ".":
		case "..":
			if depth--; depth < 0 {
				return found{}, fsutil.ErrPathEscapes
			}
		default:
			depth++
		}
	}
	cur := f.Root
	links := 0
	last := found{dir: f.Root, base: ".", node: f.Root}
	for len(comps) > 0 {
		c := comps[0]
		comps = comps[1:]
		if !cur.Mode.IsDir() {
			return found{}, syscall.ENOTDIR
		}
		switch c {
		case "", ".":
			last = found{dir: cur, base: ".", node: cur}
			continue
		case "..":
			if cur == f.Root {
				return found{}, fsutil.ErrPathEscapes
			}
			cur = cur.parent
			last = found{dir: cur, base: ".", node: cur}
			continue
		}
		k := cur.Kids[c]
		if k == nil {
			if len(comps) > 0 {
				return found{}, syscall.ENOENT
			}
			return found{dir: cur, base: c}, nil
		}
		if k.Mode&fs.ModeSymlink != 0 && (len(comps) > 0 || follow) {
			if links++; links > maxLinks {
				return found{}, syscall.ELOOP
			}
			if strings.HasPrefix(k.Target, "/") {
				return found{}, fsutil.ErrPathEscapes
			}
			comps = append(strings.Split(k.Target, "/"), comps...)
			last = found{dir: cur, base: ".", node: cur}
			continue
		}
		last = found{dir: cur, base: c, node: k}
		cur = k
	}
	return last, nil
}

func perr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: p, Err: err}
}

func lerr(op, o, n string, err error) error {
	if err == nil {
		return nil
	}
	return &os.LinkError{Op: op, Old: o, New: n, Err: err}
}

// do runs one operation between its hooks.
func (f *FS) do(op Op, fn func() error) error {
	if _, err := f.before(op); err != nil {
		return err
	}
	if err := fn(); err != nil {
		if op.To != "" {
			return lerr(op.Name, op.Path, op.To, err)
		}
		return perr(op.Name, op.Path, err)
	}
	return f.after(op)
}

func (f *FS) get(name string, follow bool) (*Node, error) {
	r, err := f.walk(name, follow)
	if err == nil && r.node == nil {
		err = syscall.ENOENT
	}
	return r.node, err
}

const modeBits = fs.ModePerm | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky

func (n *Node) setMode(m fs.FileMode) { n.Mode = n.Mode&^modeBits | m&modeBits }

func (f *FS) Chmod(name string, mode fs.FileMode) error {
	return f.do(Op{Name: "chmod", Path: name}, func() error {
		n, err := f.get(name, true)
		if err == nil {
			n.setMode(mode)
		}
		return err
	})
}

func (f *FS) chown(op, name string, uid, gid int, follow bool) error {
	return f.do(Op{Name: op, Path: name}, func() error {
		n, err := f.get(name, follow)
		if err == nil {
			n.chown(uid, gid)
		}
		return err
	})
}

func (n *Node) chown(uid, gid int) {
	if uid != -1 {
		n.UID = uid
	}
	if gid != -1 {
		n.GID = gid
	}
}

func (f *FS) Chown(name string, uid, gid int) error  { return f.chown("chown", name, uid, gid, true) }
func (f *FS) Lchown(name string, uid, gid int) error { return f.chown("lchown", name, uid, gid, false) }

func (f *FS) Chtimes(name string, a, m time.Time) error {
	return f.do(Op{Name: "chtimes", Path: name}, func() error {
		n, err := f.get(name, true)
		if err != nil {
			return err
		}
		if !a.IsZero() {
			n.Atime = a
		}
		if !m.IsZero() {
			n.Mtime = m
		}
		return nil
	})
}

func (f *FS) Close() error { return nil }
func (f *FS) Name() string { return f.label }
func (f *FS) IsRoot()      {}

func (f *FS) Create(name string) (vroot.File, error) {
	return f.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}
func (f *FS) Open(name string) (vroot.File, error) { return f.OpenFile(name, os.O_RDONLY, 0) }

func (f *FS) Link(o, n string) error {
	return f.do(Op{Name: "link", Path: o, To: n}, func() error {
		src, err := f.get(o, false)
		if err != nil {
			return err
		}
		r, err := f.walk(n, false)
		if err != nil {
			return err
		}
		if r.node != nil {
			return syscall.EEXIST
		}
		if src.Mode.IsDir() {
			return syscall.EPERM
		}
		r.dir.Kids[r.base] = src
		return nil
	})
}

func (f *FS) stat(op, name string, follow bool) (fi fs.FileInfo, err error) {
	err = f.do(Op{Name: op, Path: name}, func() error {
		n, err := f.get(name, follow)
		if err == nil {
			fi = n.Info(path.Base(name))
		}
		return err
	})
	if err != nil {
		return nil, err
	}
	return fi, nil
}

func (f *FS) Lstat(name string) (fs.FileInfo, error) { return f.stat("lstat", name, false) }
func (f *FS) Stat(name string) (fs.FileInfo, error)  { return f.stat("stat", name, true) }

func (f *FS) Mkdir(name string, perm fs.FileMode) error {
	return f.do(Op{Name: "mkdir", Path: name}, func() error { return f.mkdir(name, perm) })
}

func (f *FS) mkdir(name string, perm fs.FileMode) error { return f.mkdirAt(name, perm, false) }

func (f *FS) mkdirAt(name string, perm fs.FileMode, follow bool) error {
	r, err := f.walk(name, follow)
	if err != nil {
		return err
	}
	if r.node != nil {
		return syscall.EEXIST
	}
	d := f.node(fs.ModeDir)
	d.setMode(perm)
	d.parent = r.dir
	r.dir.Kids[r.base] = d
	return nil
}

func (f *FS) MkdirAll(name string, perm fs.FileMode) error {
	return f.do(Op{Name: "mkdirall", Path: name}, func() error {
		parts := strings.Split(path.Clean(name), "/")
		for i := range parts {
			p := strings.Join(parts[:i+1], "/")
			n, err := f.get(p, true)
			if err == nil {
				if !n.Mode.IsDir() {
					return syscall.ENOTDIR
				}
				continue
			}
			if err != syscall.ENOENT {
				return err
			}
			// A dangling link is created through.
			if err := f.mkdirAt(p, perm, true); err != nil {
				return err
			}
		}
		return nil
	})
}

func (f *FS) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, error) {
	var h *File
	err := f.do(Op{Name: "open", Path: name, Flag: flag}, func() error {
		excl := flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0
		r, err := f.walk(name, !excl)
		if err != nil {
			return err
		}
		wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
		n := r.node
		switch {
		case n == nil:
			if flag&os.O_CREATE == 0 {
				return syscall.ENOENT
			}
			n = f.node(0)
			n.setMode(perm)
			r.dir.Kids[r.base] = n
		case excl:
			return syscall.EEXIST
		case n.Mode.IsDir() && (wr || flag&os.O_CREATE != 0):
			return syscall.EISDIR
		case flag&os.O_TRUNC != 0 && wr:
			n.Data = nil
		}
		h = &File{fs: f.top(), n: n, name: name, flag: flag}
		h.fs.Open_++
		return nil
	})
	if err != nil {
		return nil, err
	}
	return h, nil
}

func (f *FS) OpenRoot(name string) (*FS, error) {
	n, err := f.get(name, true)
	if err == nil && !n.Mode.IsDir() {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return nil, perr("openroot", name, err)
	}
	return &FS{Root: n, base: f.top(), label: name}, nil
}

func (f *FS) ReadLink(name string) (t string, err error) {
	err = f.do(Op{Name: "readlink", Path: name}, func() error {
		n, err := f.get(name, false)
		if err != nil {
			return err
		}
		if n.Mode&fs.ModeSymlink == 0 {
			return syscall.EINVAL
		}
		t = n.Target
		return nil
	})
	if err != nil {
		return "", err
	}
	return t, nil
}

func (f *FS) Remove(name string) error {
	return f.do(Op{Name: "remove", Path: name}, func() error {
		r, err := f.walk(name, false)
		if err != nil {
			return err
		}
		if r.node == nil {
			return syscall.ENOENT
		}
		if r.base == "." {
			return syscall.EINVAL
		}
		if r.node.Mode.IsDir() && len(r.node.Kids) > 0 {
			return syscall.ENOTEMPTY
		}
		delete(r.dir.Kids, r.base)
		return nil
	})
}

func (f *FS) RemoveAll(name string) error {
	return f.do(Op{Name: "removeall", Path: name}, func() error {
		r, err := f.walk(name, false)
		if err == syscall.ENOENT {
			return nil
		}
		if err != nil {
			return err
		}
		if r.base == "." {
			return syscall.EINVAL
		}
		delete(r.dir.Kids, r.base)
		if r.node != nil {
			r.node.empty()
		}
		return nil
	})
}

// empty takes everything out of a removed tree: a handle on one of its
// directories sees what a handle on a removed directory sees.
func (n *Node) empty() {
	for k, c := range n.Kids {
		delete(n.Kids, k)
		c.empty()
	}
}

func (f *FS) Rename(o, n string) error {
	return f.do(Op{Name: "rename", Path: o, To: n}, func() error {
		a, err := f.walk(o, false)
		if err != nil {
			return err
		}
		b, err := f.walk(n, false)
		if err != nil {
			return err
		}
		if a.base == "." || b.base == "." {
			return syscall.EBUSY
		}
		if a.node == nil {
			return syscall.ENOENT
		}
		if a.node == b.node {
			return nil
		}
		if a.node.Mode.IsDir() {
			for d := b.dir; ; d = d.parent {
				if d == a.node {
					return syscall.EINVAL
				}
				if d == d.parent || d == f.Root {
					break
				}
			}
		}
		if b.node != nil {
			switch {
			case a.node.Mode.IsDir() && !b.node.Mode.IsDir():
				return syscall.ENOTDIR
			case !a.node.Mode.IsDir() && b.node.Mode.IsDir():
				return syscall.EISDIR
			case len(b.node.Kids) > 0:
				return syscall.ENOTEMPTY
			}
		}
		delete(a.dir.Kids, a.base)
		b.dir.Kids[b.base] = a.node
		if a.node.Mode.IsDir() {
			a.node.parent = b.dir
		}
		return nil
	})
}

func (f *FS) Symlink(o, n string) error {
	return f.do(Op{Name: "symlink", Path: o, To: n}, func() error {
		r, err := f.walk(n, false)
		if err != nil {
			return err
		}
		if r.node != nil {
			return syscall.EEXIST
		}
		l := f.node(fs.ModeSymlink | 0o777)
		l.Target = o
		r.dir.Kids[r.base] = l
		return nil
	})
}

// Info describes a node under a name.
func (n *Node) Info(name string) fs.FileInfo { return Info{name, n.Mode, n.size(), n.Mtime, n.Ino} }

func (n *Node) size() int64 {
	if n.Mode&fs.ModeSymlink != 0 {
		return int64(len(n.Target))
	}
	return int64(len(n.Data))
}

// Info is the FileInfo and DirEntry of a node.
type Info struct {
	name string
	mode fs.FileMode
	size int64
	mt   time.Time
	Ino  int
}

func (i Info) Name() string               { return i.name }
func (i Info) Mode() fs.FileMode          { return i.mode }
func (i Info) Size() int64                { return i.size }
func (i Info) ModTime() time.Time         { return i.mt }
func (i Info) IsDir() bool                { return i.mode.IsDir() }
func (i Info) Sys() any                   { return nil }
func (i Info) Type() fs.FileMode          { return i.mode.Type() }
func (i Info) Info() (fs.FileInfo, error) { return i, nil }

// File is an open handle.
type File struct {
	fs     *FS
	n      *Node
	name   string
	flag   int
	off    int64
	closed bool
	list   []fs.DirEntry
	listed bool
}

func (h *File) op(name string, n int) Op {
	return Op{Name: "f." + name, Path: h.name, N: n, Flag: h.flag}
}

func (h *File) do(name string, n int, fn func() error) error {
	if h.closed {
		return perr(name, h.name, fs.ErrClosed)
	}
	if _, err := h.fs.before(h.op(name, n)); err != nil {
		return err
	}
	if err := fn(); err != nil {
		if err == io.EOF {
			return err
		}
		return perr(name, h.name, err)
	}
	return h.fs.after(h.op(name, n))
}

func (h *File) Chmod(m fs.FileMode) error {
	return h.do("chmod", 0, func() error { h.n.setMode(m); return nil })
}
func (h *File) Chown(u, g int) error {
	return h.do("chown", 0, func() error { h.n.chown(u, g); return nil })
}

// Close closes even when a hook makes it fail.
func (h *File) Close() error {
	if h.closed {
		return perr("close", h.name, fs.ErrClosed)
	}
	h.closed = true
	h.fs.Open_--
	if _, err := h.fs.before(h.op("close", 0)); err != nil {
		return err
	}
	return h.fs.after(h.op("close", 0))
}
func (h *File) Fd() uintptr  { return ^uintptr(0) }
func (h *File) Name() string { return h.name }

func (h *File) canRead() error {
	if h.n.Mode.IsDir() {
		return syscall.EISDIR
	}
	if h.flag&os.O_WRONLY != 0 {
		return syscall.EBADF
	}
	return nil
}

func (h *File) canWrite() error {
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return syscall.EBADF
	}
	return nil
}

func (h *File) Read(b []byte) (n int, err error) {
	err = h.do("read", len(b), func() error {
		if err := h.canRead(); err != nil {
			return err
		}
		if len(b) == 0 {
			return nil
		}
		if h.off >= int64(len(h.n.Data)) {
			return io.EOF
		}
		n = copy(b, h.n.Data[h.off:])
		h.off += int64(n)
		return nil
	})
	return n, err
}

func (h *File) ReadAt(b []byte, off int64) (n int, err error) {
	err = h.do("readat", len(b), func() error {
		if off < 0 {
			return syscall.EINVAL
		}
		if len(b) == 0 {
			return nil
		}
		if err := h.canRead(); err != nil {
			return err
		}
		if off < int64(len(h.n.Data)) {
			n = copy(b, h.n.Data[off:])
		}
		if n < len(b) {
			return io.EOF
		}
		return nil
	})
	return n, err
}

func (h *File) entries(n int) (out []fs.DirEntry, err error) {
	err = h.do("readdir", n, func() error {
		if !h.n.Mode.IsDir() {
			return syscall.ENOTDIR
		}
		if !h.listed {
			h.listed = true
			for _, k := range Names(h.n) {
				h.list = append(h.list, h.n.Kids[k].Info(k).(Info))
			}
		}
		if n <= 0 {
			out, h.list = h.list, nil
			return nil
		}
		if len(h.list) == 0 {
			return io.EOF
		}
		n = min(n, len(h.list))
		out, h.list = h.list[:n], h.list[n:]
		return nil
	})
	return out, err
}

func (h *File) ReadDir(n int) ([]fs.DirEntry, error) { return h.entries(n) }
func (h *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := h.entries(n)
	var out []fs.FileInfo
	for _, e := range es {
		out = append(out, e.(Info))
	}
	return out, err
}
func (h *File) Readdirnames(n int) ([]string, error) {
	es, err := h.entries(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

func (h *File) Seek(off int64, whence int) (int64, error) {
	err := h.do("seek", 0, func() error {
		if h.n.Mode.IsDir() && off == 0 && whence == io.SeekStart {
			h.listed, h.list = false, nil
			return nil
		}
		switch whence {
		case io.SeekStart:
		case io.SeekCurrent:
			off += h.off
		case io.SeekEnd:
			off += int64(len(h.n.Data))
		default:
			return syscall.EINVAL
		}
		if off < 0 {
			return syscall.EINVAL
		}
		h.off = off
		return nil
	})
	if err != nil {
		return 0, err
	}
	return h.off, nil
}

func (h *File) Stat() (fi fs.FileInfo, err error) {
	err = h.do("stat", 0, func() error { fi = h.n.Info(path.Base(h.name)); return nil })
	if err != nil {
		return nil, err
	}
	return fi, nil
}

func (h *File) Sync() error {
	return h.do("sync", 0, func() error {
		h.n.Synced = append([]byte(nil), h.n.Data...)
		return nil
	})
}

func (h *File) Truncate(size int64) error {
	return h.do("truncate", int(size), func() error {
		if size < 0 || h.n.Mode.IsDir() || h.canWrite() != nil {
			return syscall.EINVAL
		}
		h.n.resize(size)
		return nil
	})
}

func (n *Node) resize(size int64) {
	d := make([]byte, size)
	copy(d, n.Data)
	n.Data = d
}

func (h *File) write(name string, b []byte, off int64) (int, error) {
	if h.closed {
		return 0, perr(name, h.name, fs.ErrClosed)
	}
	if err := h.canWrite(); err != nil {
		return 0, perr(name, h.name, err)
	}
	n, err := h.fs.before(h.op(name, len(b)))
	if err == nil {
		n = len(b)
	}
	if n > 0 {
		if end := off + int64(n); end > int64(len(h.n.Data)) {
			h.n.resize(end)
		}
		copy(h.n.Data[off:], b[:n])
	}
	if err != nil {
		return n, err
	}
	return n, h.fs.after(h.op(name, len(b)))
}

func (h *File) Write(b []byte) (int, error) {
	off := h.off
	if h.flag&os.O_APPEND != 0 {
		off = int64(len(h.n.Data))
	}
	n, err := h.write("write", b, off)
	if n > 0 {
		h.off = off + int64(n)
	}
	return n, err
}

func (h *File) WriteAt(b []byte, off int64) (int, error) {
	if h.closed {
		return 0, perr("writeat", h.name, fs.ErrClosed)
	}
	if off < 0 || h.flag&os.O_APPEND != 0 {
		return 0, perr("writeat", h.name, syscall.EINVAL)
	}
	return h.write("writeat", b, off)
}

func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

// Put creates a file with content, parents included, bypassing hooks.
func (f *FS) Put(name, data string, perm fs.FileMode) {
	b, a := f.Before, f.After
	f.Before, f.After = nil, nil
	if d := path.Dir(name); d != "." {
		_ = f.MkdirAll(d, 0o755)
	}
	h, err := f.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		panic(err)
	}
	_, _ = h.WriteString(data)
	_ = h.Sync()
	_ = h.Close()
	f.Before, f.After = b, a
}

// Get returns a file's content through the tree, bypassing hooks.
func (f *FS) Get(name string) (string, bool) {
	n, err := f.get(name, true)
	if err != nil || !n.Mode.IsRegular() {
		return "", false
	}
	return string(n.Data), true
}

var (
	_ vroot.Fs[vroot.File]        = (*FS)(nil)
	_ vroot.Root[vroot.File, *FS] = (*FS)(nil)
)

// Links counts the names of the file at name.
func (f *FS) Links(name string) int {
	n, err := f.get(name, true)
	if err != nil {
		return 0
	}
	c := 0
	var walk func(d *Node)
	walk = func(d *Node) {
		for _, k := range d.Kids {
			if k == n {
				c++
			}
			walk(k)
		}
	}
	walk(f.top().Root)
	return c
}

// Lookup finds the node at name, nil if there is none, bypassing hooks.
func Lookup(f *FS, name string, follow bool) *Node {
	n, err := f.get(name, follow)
	if err != nil {
		return nil
	}
	return n
}

// Attach puts n under dir, bypassing hooks.
func Attach(f *FS, dir *Node, name string, n *Node) {
	t := f.top()
	t.nextIn++
	n.Ino = t.nextIn
	n.parent = dir
	if n.Mode.IsDir() && n.Kids == nil {
		n.Kids = map[string]*Node{}
	}
	dir.Kids[name] = n
}
