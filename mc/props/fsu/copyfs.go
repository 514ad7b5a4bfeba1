package fsu

import (
	"errors"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

type cpOpt = fsutil.CopyFsOption[fsT, vroot.File]

// srcFS presents a reference tree as an io/fs file system, with or without
// symlink methods.
type srcFS struct{ f *reffs.FS }

func (s srcFS) Open(n string) (fs.File, error) {
	if !fs.ValidPath(n) {
		return nil, &fs.PathError{Op: "open", Path: n, Err: fs.ErrInvalid}
	}
	return s.f.Open(n)
}
func (s srcFS) Stat(n string) (fs.FileInfo, error) {
	if !fs.ValidPath(n) {
		return nil, &fs.PathError{Op: "stat", Path: n, Err: fs.ErrInvalid}
	}
	return s.f.Stat(n)
}

type srcLinkFS struct{ srcFS }

func (s srcLinkFS) Lstat(n string) (fs.FileInfo, error) { return s.f.Lstat(n) }
func (s srcLinkFS) ReadLink(n string) (string, error)   { return s.f.ReadLink(n) }

// treeItems is the alphabet of source entries.
type treeItem struct {
	kind, p, data string
	mode          fs.FileMode
}

var treeItems = []treeItem{
	{"file", "a", "data-a", 0o640},
	{"file", "d/b", "bb", 0o600},
	{"dir", "e", "", 0o700},
	{"link", "l", "a", 0},
	{"link", "d/up", "../a", 0},
	{"link", "dl", "d", 0},
	{"file", "d/x/c", "", 0o444},
	{"link", "dangling", "nowhere", 0},
	{"file", "suid", "s", 0o755 | fs.ModeSetuid},
	{"file", "d/x/y/z/deep", "deep", 0o666},
}

func buildTree(c *core.C, f *reffs.FS, max int) string {
	var got []string
	for i, it := range treeItems {
		if len(got) == max {
			break
		}
		if !c.Bool() {
			continue
		}
		got = append(got, it.p)
		switch it.kind {
		case "file":
			f.Put(it.p, it.data, it.mode)
			_ = f.Chmod(it.p, it.mode)
		case "dir":
			_ = f.Mkdir(it.p, it.mode)
		case "link":
			_ = f.MkdirAll(path.Dir(it.p), 0o755)
			_ = f.Symlink(it.target(), it.p)
		}
		_ = i
	}
	for d, m := range map[string]fs.FileMode{"d": 0o711, "d/x": 0o751, "d/x/y": 0o705, "d/x/y/z": 0o770 | fs.ModeSticky} {
		if fi, err := f.Lstat(d); err == nil && fi.IsDir() {
			_ = f.Chmod(d, m)
		}
	}
	return strings.Join(got, ",")
}

func (it *treeItem) target() string { return it.data }

func copyTree(items, faults int, paths bool) func(c *core.C) {
	return func(c *core.C) {
		src := reffs.New()
		desc := buildTree(c, src, items)
		dst := reffs.New()
		dst.Put("keep", "kept", 0o604)
		root := core.Pick(c, ".", "r", "r/s")
		pre := c.Choose(3)
		if root != "." {
			if root == "r/s" && !paths {
				_ = dst.Mkdir("r", 0o755)
			}
			if pre > 0 {
				_ = dst.MkdirAll(root, 0o755)
			}
		}
		if pre == 2 {
			dst.Put(path.Join(root, "a"), "longer old content", 0o666)
			dst.Put(path.Join(root, "d/other"), "other", 0o604)
		}
		before := dumpMap(dst)
		links := c.Bool()
		var sfs fs.FS = srcFS{src}
		if links {
			sfs = srcLinkFS{srcFS{src}}
		}
		maskUnix := c.Bool()
		opt := cpOpt{}
		mask := func(m fs.FileMode) fs.FileMode { return m & fs.ModePerm }
		if maskUnix {
			opt.MaskChmodMode = fsutil.MaskChmodModeUnix
			mask = fsutil.MaskChmodModeUnix
		}
		want := map[string]string{}
		all := dumpMap(src)
		var sel []string
		if paths {
			var names []string
			for k := range all {
				names = append(names, k)
			}
			sort.Strings(names)
			if len(names) == 0 {
				c.Prune()
			}
			sel = append(sel, names[c.Choose(len(names))])
			if k := c.Choose(len(names) + 1); k < len(names) {
				sel = append(sel, names[k])
			}
			for _, p := range sel {
				if !links && strings.HasPrefix(all[p], "link") {
					c.Prune() // without Lstat a named link is followed
				}
			}
		} else {
			for k := range all {
				sel = append(sel, k)
			}
			if root != "." {
				want[root] = "dir " + (fs.ModeDir | mask(0o755)).String()
			}
		}
		wantOf := func(p string, parent bool) {
			n := nodeAt(src, p)
			full := path.Join(root, p)
			switch {
			case n.Mode.IsDir():
				want[full] = "dir " + (fs.ModeDir | mask(n.Mode&^fs.ModeDir)).String()
			case n.Mode&fs.ModeSymlink != 0:
				if links {
					want[full] = "link " + n.Target
				}
			default:
				want[full] = "file " + mask(n.Mode).String() + " " + string(n.Data)
			}
		}
		for _, p := range sel {
			wantOf(p, false)
			for d := path.Dir(p); d != "."; d = path.Dir(d) {
				wantOf(d, true)
			}
		}
		if len(sel) > 1 && sel[0] == sel[1] && strings.HasPrefix(want[path.Join(root, sel[0])], "link") {
			c.Prune() // the same link twice: an error is right
		}
		inS := &injector{c: c, fs: src, left: faults}
		inD := &injector{c: c, fs: dst, left: faults}
		ignore := faults > 0 && !paths && c.Bool()
		if ignore {
			opt.IgnoreErr = func(err error) bool { return errors.Is(err, errFault) }
		}
		// one fault in total, on either side
		inS.skip = func(op reffs.Op) bool { inS.left = faults - len(inS.faults) - len(inD.faults); return false }
		inD.skip = func(op reffs.Op) bool { inD.left = faults - len(inS.faults) - len(inD.faults); return false }
		if faults > 0 {
			inS.install()
			inD.install()
		}
		c.Step()
		c.Logf("src=%s root=%s pre=%d links=%v unixmask=%v sel=%v", desc, root, pre, links, maskUnix, sel)
		var err error
		if paths {
			err = opt.CopyPath(dst, sfs, root, sel...)
		} else {
			err = opt.CopyAll(dst, sfs, root)
		}
		src.Before, src.After = nil, nil
		inD.remove()
		c.Logf("err=%v", err)
		flts := append(append([]string(nil), inS.faults...), inD.faults...)
		if src.Open_ != 0 || dst.Open_ != 0 {
			c.Fail("handle-leak", "%d source and %d destination handles left open", src.Open_, dst.Open_)
		}
		got := dumpMap(dst)
		if err == nil {
			for _, ft := range inD.faults {
				if ft != "" {
					c.Fail("error-swallowed", "a failing %s on the destination was reported as success", ft)
				}
			}
			lost := func(p string) bool { return false }
			for i, ft := range inS.faults {
				p := inS.paths[i]
				if n := dirAt(src, p); ignore && n && (ft == "open" || ft == "f.readdir" || ft == "stat" || ft == "f.stat") {
					// A directory that could not be walked is skipped, nothing else.
					old := lost
					lost = func(q string) bool {
						return old(q) || p == "." || strings.HasPrefix(q, path.Join(root, p)+"/")
					}
					continue
				}
				if ft != "f.close" {
					c.Fail("error-swallowed", "a failing %s on the source was reported as success", ft)
				}
			}
			for p, w := range want {
				g := got[p]
				if lost(p) {
					continue
				}
				if b, ok := before[p]; ok && strings.HasPrefix(b, "file") {
					// permissions of a file that was there stay its own
					g = cutMode(g)
					w = cutMode(w)
				}
				if g != w {
					c.Fail("unfaithful", "%s is %q, want %q", p, g, w)
				}
			}
		} else if len(flts) == 0 {
			c.Fail("spurious-error", "%v", err)
		} else if !errors.Is(err, errFault) {
			c.Fail("cause-lost", "the cause is gone from %v", err)
		}
		// Nothing else in the destination changed, whatever happened.
		ign := func(p string) bool {
			_, ok := want[p]
			if ok || p == root {
				return true
			}
			for w := range want {
				if strings.HasPrefix(w, p+"/") && got[p] != "" && before[p] == "" {
					return true // a parent made on the way
				}
			}
			return false
		}
		if d := diff(before, got, ign); d != "" {
			c.Fail("collateral", "%s", d)
		}
		c.Distinct(fmt.Sprint(desc, root, pre, sel, flts))
	}
}

func dirAt(f *reffs.FS, p string) bool {
	if p == "." {
		return true
	}
	n := nodeAt(f, p)
	return n != nil && n.Mode.IsDir()
}

// bigFile copies files around the copy buffer's size.
func bigFile(c *core.C) {
	size := core.Pick(c, 0, 1, 65535, 65536, 65537, 131072, 131073)
	data := strings.Repeat("0123456789abcdefX", size/17+1)[:size]
	src, dst := reffs.New(), reffs.New()
	src.Put("big", data, 0o644)
	inS := &injector{c: c, fs: src, left: 1}
	inD := &injector{c: c, fs: dst, left: 1}
	inS.skip = func(reffs.Op) bool { inS.left = 1 - len(inD.faults) - len(inS.faults); return false }
	inD.skip = func(reffs.Op) bool { inD.left = 1 - len(inD.faults) - len(inS.faults); return false }
	inS.install()
	inD.install()
	var err error
	c.Step()
	which := c.Choose(3)
	switch which {
	case 0:
		err = cpOpt{}.CopyAll(dst, srcLinkFS{srcFS{src}}, ".")
	case 1:
		err = cpOpt{}.CopyPath(dst, srcLinkFS{srcFS{src}}, ".", "big")
	case 2:
		var r vroot.File
		r, err = src.Open("big")
		if err == nil {
			err = swOpt{}.Copy(dst, "big", struct{ readerOnly }{readerOnly{r}}, 0o644, nil, nil)
			_ = r.Close()
		}
	}
	src.Before, src.After = nil, nil
	inD.remove()
	c.Logf("size=%d which=%d err=%v", size, which, err)
	got, ok := dst.Get("big")
	if err == nil {
		for _, ft := range append(inD.faults, inS.faults...) {
			if ft != "f.close" || len(inD.faults) > 0 {
				c.Fail("error-swallowed", "a failing %s was reported as success", ft)
			}
		}
		if !ok || got != data {
			c.Fail("unfaithful", "%d bytes became %d (equal prefix %v)", size, len(got), strings.HasPrefix(data, got))
		}
	} else if len(inD.faults)+len(inS.faults) == 0 {
		c.Fail("spurious-error", "%v", err)
	}
	c.Distinct(c.History())
}

type readerOnly struct{ r vroot.File }

func (r readerOnly) Read(p []byte) (int, error) { return r.r.Read(p) }

func cutMode(s string) string {
	f := strings.SplitN(s, " ", 3)
	if len(f) == 3 && f[0] == "file" {
		return f[2]
	}
	return s
}

func nodeAt(f *reffs.FS, p string) *reffs.Node {
	n := f.Root
	for _, k := range strings.Split(p, "/") {
		if n == nil {
			return nil
		}
		n = n.Kids[k]
	}
	return n
}

func init() {
	core.Register(&core.Property{
		ID:          "F03",
		Rule:        "every source tree drawn from the entry alphabet, destination state, root, path selection and placement of one or two faults on either side",
		Assumptions: []string{"a symlink is copied only when both sides can, and permissions of a destination file that already exists stay its own, as documented"},
		Scenarios: func(th bool) []core.Scenario {
			n, fl := 3, 1
			if th {
				n, fl = 5, 2
			}
			return []core.Scenario{
				{Name: "all", Bound: fmt.Sprintf("CopyAll, up to %d entries", n+3), Body: copyTree(n+3, 0, false)},
				{Name: "paths", Bound: fmt.Sprintf("CopyPath, up to %d entries", n), Body: copyTree(n, 0, true)},
				{Name: "big", Bound: "7 sizes around the copy buffer, 3 entry points, one fault", Body: bigFile},
				{Name: "all-faults", Bound: fmt.Sprintf("CopyAll, up to %d entries, %d fault", n, fl), Body: copyTree(n, fl, false)},
				{Name: "paths-faults", Bound: fmt.Sprintf("CopyPath, up to 2 entries, %d fault", fl), Body: copyTree(2, fl, true)},
			}
		},
	})
}
