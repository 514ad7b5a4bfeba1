package vr

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

type setClock struct{ t time.Time }

func (s *setClock) Now() time.Time { return s.t }

// recorder remembers what the allocator was asked for.
type recorder struct {
	synthfs.FileViewAllocator
	calls []string
}

func (a *recorder) Allocate(name string, perm fs.FileMode) (synthfs.FileView, error) {
	a.calls = append(a.calls, fmt.Sprintf("%s %v", name, perm))
	return a.FileViewAllocator.Allocate(name, perm)
}

// statView is a view whose stat answers what it is told to.
type statView struct {
	synthfs.FileView
	info fs.FileInfo
}

func (s statView) Stat() (fs.FileInfo, error) { return s.info, nil }

// creation: every entry made under any umask, chmod mask and clock.
func creation(c *core.C) {
	umask := core.Pick(c, fs.FileMode(0o022), 0, 0o077, 0o777, 0o027)
	clk := &setClock{time.Unix(1000, 7)}
	alloc := &recorder{FileViewAllocator: synthfs.NewMemAllocator(clk)}
	opt := &synthfs.Option{Umask: &umask, Clock: clk, Allocator: alloc}
	if umask == 0o022 && c.Bool() {
		opt.Umask = nil
	}
	mask := func(m fs.FileMode) fs.FileMode { return m & 0o777 }
	switch c.Choose(4) {
	case 1:
		opt.MaskChmodMode = fsutil.MaskChmodModeUnix
	case 2:
		opt.MaskChmodMode = fsutil.MaskChmodModeWindows
	case 3:
		opt.MaskChmodMode = func(fs.FileMode) fs.FileMode { return 0o321 }
	}
	if opt.MaskChmodMode != nil {
		mask = opt.MaskChmodMode
	}
	root := synthfs.NewRoot("opt", opt)
	r := vroot.Fs[vroot.File](root)
	if fi, err := r.Stat("."); err != nil || fi.Mode() != fs.ModeDir|0o777&^umask || !fi.ModTime().Equal(clk.t) {
		c.Fail("root", "the root is %v (%v)", fi.Mode(), err)
	}
	type want struct {
		mode fs.FileMode
		mod  time.Time
	}
	wants := map[string]want{}
	note := func(name string, typ, perm fs.FileMode) { wants[name] = want{typ | perm&^umask, clk.t} }
	clk.t = clk.t.Add(time.Hour)
	if err := r.Mkdir("d", 0o777); err != nil {
		panic(err)
	}
	note("d", fs.ModeDir, 0o777)
	clk.t = clk.t.Add(time.Hour)
	in := core.Pick(c, "", "d/")
	if in != "" && c.Bool() {
		s, err := root.OpenRoot("d")
		if err != nil {
			c.Fail("subroot", "OpenRoot: %v", err)
		}
		r = vroot.Fs[vroot.File](s)
	}
	name := in + "x"
	via := func(n string) string {
		if r == vroot.Fs[vroot.File](root) {
			return n
		}
		return n[len("d/"):]
	}
	perm := core.Pick(c, fs.FileMode(0o666), 0o777, 0, 0o400, 0o123)
	var err error
	var h vroot.File
	how := c.Choose(8)
	alloc.calls = nil
	calls := 0
	c.Step()
	switch how {
	case 0:
		h, err = r.Create(via(name))
		note(name, 0, 0o666)
	case 1:
		h, err = r.OpenFile(via(name), os.O_RDWR|os.O_CREATE|os.O_EXCL, perm)
		note(name, 0, perm)
	case 2:
		err = r.Mkdir(via(name), perm)
		note(name, fs.ModeDir, perm)
	case 3:
		err = r.MkdirAll(via(name)+"/y/z", perm)
		note(name, fs.ModeDir, perm)
		note(name+"/y", fs.ModeDir, perm)
		note(name+"/y/z", fs.ModeDir, perm)
	case 4:
		h, err = r.OpenFile(via(name), os.O_WRONLY|os.O_CREATE, perm)
		note(name, 0, perm)
	case 5:
		err = r.Symlink("nowhere", via(name))
		wants[name] = want{fs.ModeSymlink | 0o777, clk.t}
	case 6:
		v, verr := synthfs.NewMemAllocator(clk).Allocate("src", perm)
		if verr != nil {
			panic(verr)
		}
		add := r.(*synthfs.Root)
		then := clk.t.Add(-time.Minute)
		err = add.AddFile(via(name)+"/s/t", statView{v, (&reffs.Node{Mode: perm, Mtime: then}).Info("src")}, nil)
		note(name, fs.ModeDir, 0o755)
		note(name+"/s", fs.ModeDir, 0o755)
		wants[name+"/s/t"] = want{perm, then}
	case 7:
		src := reffs.New()
		src.Put("t", "x", 0)
		_ = src.Chmod("t", perm)
		then := clk.t.Add(-time.Minute)
		_ = src.Chtimes("t", then, then)
		err = r.(*synthfs.Root).AddFS(via(name)+"/s", vroot.ToIoFs[vroot.File](src), nil)
		note(name, fs.ModeDir, 0o755)
		wants[name+"/s/t"] = want{perm, then}
	}
	if h != nil {
		calls = 1
		if want := fmt.Sprintf("x %v", wants[name].mode); len(alloc.calls) != 1 || alloc.calls[0] != want {
			c.Fail("allocated", "creating %s asks the allocator for %q, want %q", name, alloc.calls, want)
		}
	}
	if err != nil {
		c.Fail("create", "creating %s (%d) fails: %v", name, how, err)
	}
	check := func(when string) {
		for n, w := range wants {
			fi, err := root.Lstat(n)
			if err != nil || fi.Mode() != w.mode || !fi.ModTime().Equal(w.mod) {
				c.Fail("shown:"+when, "%s: %s shows %v %v (%v), want %v %v (umask %v)", when, n, fi.Mode(), fi.ModTime(), err, w.mode, w.mod, umask)
			}
			ds, err := vroot.ReadDir[vroot.File](root, path.Dir(n))
			if err != nil {
				c.Fail("list", "listing %s: %v", path.Dir(n), err)
			}
			for _, d := range ds {
				if d.Name() != path.Base(n) {
					continue
				}
				if i, err := d.Info(); err != nil || i.Mode() != w.mode || d.Type() != w.mode.Type() || !i.ModTime().Equal(w.mod) {
					c.Fail("listed:"+when, "%s: %s is listed as %v (%v), want %v", when, n, i, err, w.mode)
				}
			}
		}
		if h != nil {
			if fi, err := h.Stat(); err != nil || fi.Mode() != wants[name].mode {
				c.Fail("handle:"+when, "%s: the handle shows %v (%v), want %v", when, fi, err, wants[name].mode)
			}
		}
	}
	clk.t = clk.t.Add(time.Hour)
	check("created")
	if how == 5 {
		return
	}
	// Opening what is there again changes nothing of it.
	if h != nil {
		g, err := r.OpenFile(via(name), os.O_RDWR|os.O_CREATE, 0o700)
		if err != nil {
			c.Fail("reopen", "opening %s again: %v", name, err)
		}
		_ = g.Close()
		check("opened again")
	}
	if h == nil && c.Bool() {
		if h, err = r.Open(via(name)); err != nil {
			c.Fail("opendir", "opening %s: %v", name, err)
		}
	}
	mode := core.Pick(c, fs.FileMode(0o600), 0, 0o777, 0o4755, 0o755|fs.ModeSetuid|fs.ModeSticky, fs.ModeDir|0o500, fs.ModeSymlink|0o200)
	c.Step()
	if h != nil && c.Bool() {
		err = h.Chmod(mode)
	} else {
		err = r.Chmod(via(name), mode)
	}
	if err != nil {
		c.Fail("chmod", "chmod %v: %v", mode, err)
	}
	w := wants[name]
	got, _ := root.Lstat(name)
	if t := mask(mode); got.Mode().Type() != w.mode.Type() || got.Mode()&^fs.ModeType != t&^fs.ModeType {
		c.Fail("chmod-mask", "chmod(%v) leaves %v, want %v", mode, got.Mode(), t)
	}
	w.mode = got.Mode()
	wants[name] = w
	check("chmod")
	if h != nil {
		_ = h.Close()
	}
	h = nil
	check("closed")
	if len(alloc.calls) != calls {
		c.Fail("allocations", "the allocator was asked for %q", alloc.calls)
	}
}

// openKept: with DisableOpenFileRemoval, Remove is refused exactly while a
// handle is open on the entry, however it was opened and whatever it is called.
func openKept(depth int) func(c *core.C) {
	return func(c *core.C) {
		kept := c.Choose(4) != 3
		root := synthfs.NewRoot("kept", &synthfs.Option{DisableOpenFileRemoval: kept, Umask: zeroMask()})
		ref := reffs.New()
		lines := []string{"d/", "d/f=one", "g=two", "e/", "l->d/f", "ld->e"}
		seed(vroot.Fs[vroot.File](root), lines)
		seed(vroot.Fs[vroot.File](ref), lines)
		sub, err := root.OpenRoot("d")
		if err != nil {
			panic(err)
		}
		type open struct {
			h    vroot.File
			n    *reffs.Node
			dead bool
		}
		var hs []*open
		count := func(n *reffs.Node) (k int) {
			for _, h := range hs {
				if h.n == n && !h.dead {
					k++
				}
			}
			return k
		}
		type opener struct {
			via  vroot.Fs[vroot.File]
			pre  string
			name string
			flag int
		}
		r := vroot.Fs[vroot.File](root)
		openers := []opener{
			{r, "", "d/f", os.O_RDONLY}, {r, "", "l", os.O_RDWR}, {r, "", "d/f", os.O_RDWR | os.O_TRUNC}, {r, "", "g", os.O_WRONLY | os.O_CREATE},
			{r, "", "g", os.O_RDWR | os.O_CREATE | os.O_EXCL}, {r, "", "e", os.O_RDONLY}, {r, "", "ld", os.O_RDONLY}, {r, "", "e", os.O_RDWR},
			{vroot.Fs[vroot.File](sub), "d/", "f", os.O_RDONLY}, {r, "", "n", os.O_RDWR | os.O_CREATE}, {r, "", "gone", os.O_RDONLY},
		}
		removes := []string{"d/f", "g", "e", "l", "n", "ld", "d"}
		renames := [][2]string{{"d/f", "n"}, {"g", "d/h"}, {"e", "d/e"}, {"n", "d/f"}, {"d", "m"}}
		for range depth {
			i := c.Choose(len(openers) + 2*2 + len(removes) + len(renames))
			c.Step()
			switch {
			case i < len(openers):
				o := openers[i]
				h, err := o.via.OpenFile(o.name, o.flag, 0o644)
				rh, rerr := ref.OpenFile(o.pre+o.name, o.flag, 0o644)
				c.Logf("open %s%s %#x: %v", o.pre, o.name, o.flag, err)
				if o.pre != "" && reffs.Lookup(ref, "d", false) == nil {
					return // the sub-root follows its moved directory
				}
				if (err == nil) != (rerr == nil) {
					c.Fail("open", "open %s answers %v, a plain directory %v\nhistory: %s", o.name, err, rerr, c.History())
				}
				if err == nil {
					hs = append(hs, &open{h: h, n: reffs.Lookup(ref, o.pre+o.name, true)})
					_ = rh.Close()
				}
			case i < len(openers)+4:
				j := i - len(openers)
				if j/2 >= len(hs) {
					return
				}
				h := hs[j/2]
				err := h.h.Close()
				c.Logf("close %d: %v", j/2, err)
				if err != nil && !(h.dead && errors.Is(err, fs.ErrClosed)) {
					c.Fail("close", "closing answers %v\nhistory: %s", err, c.History())
				}
				h.dead = true
				if j%2 == 1 {
					_ = h.h.Close() // counts once
				}
			case i < len(openers)+4+len(removes):
				n := removes[i-len(openers)-4]
				node := reffs.Lookup(ref, n, false)
				err := root.Remove(n)
				c.Logf("remove %s: %v", n, err)
				if kept && node != nil && count(node) > 0 && len(node.Kids) == 0 {
					if err == nil || !errors.Is(err, syscall.EINVAL) {
						c.Fail("removed-open", "removing %s, which is open, answers %v\nhistory: %s", n, err, c.History())
					}
				} else if rerr := ref.Remove(n); (err == nil) != (rerr == nil) {
					c.Fail("remove", "removing %s answers %v, a plain directory %v\nhistory: %s", n, err, rerr, c.History())
				}
			default:
				p := renames[i-len(openers)-4-len(removes)]
				if t := reffs.Lookup(ref, p[1], false); t != nil && count(t) > 0 {
					return // replacing an open file is left open
				}
				if s := reffs.Lookup(ref, p[0], false); s != nil && count(s) > 0 {
					c.Logf("(open)")
				}
				err, rerr := root.Rename(p[0], p[1]), ref.Rename(p[0], p[1])
				c.Logf("rename %s %s: %v", p[0], p[1], err)
				if (err == nil) != (rerr == nil) {
					c.Fail("rename", "rename %v answers %v, a plain directory %v\nhistory: %s", p, err, rerr, c.History())
				}
			}
			for _, n := range []string{"d", "d/f", "d/h", "d/e", "g", "e", "l", "ld", "n", "m", "m/f"} {
				_, err := root.Lstat(n)
				if (err == nil) != (reffs.Lookup(ref, n, false) != nil) {
					c.Fail("tree", "%s: %v\nhistory: %s", n, err, c.History())
				}
			}
		}
	}
}

func init() {
	core.Register(&core.Property{
		ID:   "V12",
		Rule: "every umask, chmod mask, way to create and mode listed; every history of opens, closes, removals and renames up to the depth with and without removal of open files disabled",
		Scenarios: func(th bool) []core.Scenario {
			d := 4
			if th {
				d = 5
			}
			return []core.Scenario{
				{Name: "creation", Bound: "6 umasks x 4 chmod masks x 8 ways x 5 permissions x 7 chmods, on the root, below it and through a sub-root", Body: creation},
				{Name: "open files kept", Bound: bound(1, 27, d, false), Body: openKept(d)},
			}
		},
	})
}
