package vr

import (
	"context"
	"fmt"
	"io/fs"
	"path"
	"strings"
	"testing/fstest"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// placeStack is an overlay to write to: everything starts in its lower.
var placeStack = place{name: "overlayfs over osfs.Root", mk: func(tree []string) (func() anyFs, func()) {
	dir := scratchDir()
	seed(vroot.Widen(newOsRoot(dir)), tree)
	r := newSynth()
	for _, d := range []string{"merged", "work"} {
		if err := r.Mkdir(d, 0o755); err != nil {
			panic(err)
		}
	}
	top, err := overlayfs.NewDataSourceCanonicalStore(vroot.Widen(r), newMemStore())
	if err != nil {
		panic(err)
	}
	o, err := overlayfs.New(top, []*overlayfs.DataSource{overlayfs.NewDataSource(vroot.Widen(newOsRoot(dir)))}, nil)
	if err != nil {
		panic(err)
	}
	return func() anyFs { return vroot.Widen(o) }, func() { dropDir(dir) }
}}

// chooseTree picks a tree: every subset of the items.
func chooseTree(c *core.C) []string {
	var lines []string
	for _, it := range []string{"a=data-a", "d/ d/b=bb", "e/", "l->a", "dl->d", "d/ d/s/ d/s/c=", "d/ d/up->../a"} {
		if !c.Bool() {
			continue
		}
		for _, l := range strings.Split(it, " ") {
			if len(lines) == 0 || !contains(lines, l) {
				lines = append(lines, l)
			}
		}
	}
	return lines
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func refOf(lines []string) *reffs.FS {
	f := reffs.New()
	seed(ofRef(f).Fs, lines)
	return f
}

// graft puts tree under dir of f.
func graft(f, tree *reffs.FS, dir string) {
	var walk func(n *reffs.Node, p string)
	walk = func(n *reffs.Node, p string) {
		to := path.Join(dir, p)
		switch {
		case n.Mode.IsDir():
			_ = f.MkdirAll(to, 0o755)
			_ = f.Chmod(to, n.Mode.Perm())
			for _, k := range reffs.Names(n) {
				walk(n.Kids[k], path.Join(p, k))
			}
		case n.Mode&fs.ModeSymlink != 0:
			_ = f.Symlink(n.Target, to)
		default:
			f.Put(to, string(n.Data), n.Mode.Perm())
		}
	}
	walk(tree.Root, ".")
}

type (
	anyCopy = fsutil.CopyFsOption[anyFs, vroot.File]
	anySafe = fsutil.SafeWriteOption[anyFs, vroot.File]
	anyPull = fsutil.ResumableCopyOption[anyFs, vroot.File]
)

// transfers moves every tree from every place to every other.
func transfers(srcs, dsts []place, store bool) func(c *core.C) {
	return func(c *core.C) {
		sp, dp := srcs[c.Choose(len(srcs))], dsts[c.Choose(len(dsts))]
		way := core.Pick(c, "CopyAll into the root", "CopyAll into a directory", "CopyPath", "SafeWrite.CopyFs", "SafeWrite.Copy", "Pull", "Push", "AddFS")
		if way == "AddFS" && dp.name != "synthfs" && dp.name != "synthfs sub-root" {
			c.Prune()
		}
		lines := chooseTree(c)
		tree := refOf(lines)
		openSrc, endSrc := sp.mk(lines)
		defer endSrc()
		pre := []string{"keep/", "keep/k=kept"}
		if way == "CopyAll into a directory" {
			pre = append(pre, "r/", "r/old=old", "r/a=before, and longer")
		}
		openDst, endDst := dp.mk(pre)
		defer endDst()
		src, dst := openSrc(), openDst()
		before := dump(Sys{Fs: src}, false)
		want := refOf(pre)
		c.Logf("%s: %v from %s to %s", way, lines, sp.name, dp.name)
		c.Step()
		iofs := vroot.ToIoFs(src)
		var err error
		switch way {
		case "CopyAll into the root":
			graft(want, tree, ".")
			err = anyCopy{}.CopyAll(dst, iofs, ".")
		case "CopyAll into a directory":
			graft(want, tree, "r")
			err = anyCopy{}.CopyAll(dst, iofs, "r")
		case "CopyPath":
			var sel []string
			for _, l := range lines {
				n, _, _ := strings.Cut(strings.ReplaceAll(l, "->", "="), "=")
				sel = append(sel, strings.TrimSuffix(n, "/"))
			}
			if len(sel) == 0 {
				c.Prune()
			}
			graft(want, tree, "p/q")
			_ = want.Chmod("p", 0o777) // made on the way, with no counterpart
			_ = want.Chmod("p/q", 0o777)
			err = anyCopy{}.CopyPath(dst, iofs, "p/q", sel...)
		case "SafeWrite.CopyFs":
			graft(want, tree, "r")
			err = anySafe{}.CopyFs(dst, "r", iofs, 0o755, nil, nil)
		case "SafeWrite.Copy", "Pull", "Push":
			for _, n := range []string{"a", "d/b", "d/s/c", "l", "dl/b", "d/up"} {
				data, there := tree.Get(n)
				if !there {
					continue
				}
				to := strings.ReplaceAll(n, "/", "_")
				want.Put(to, data, 0o640)
				size := int64(len(data))
				switch way {
				case "SafeWrite.Copy":
					var f vroot.File
					if f, err = src.Open(n); err == nil {
						err = anySafe{}.Copy(dst, to, f, 0o640, nil, nil)
						_ = f.Close()
					}
				case "Pull":
					// The first half is there from before.
					half := data[:len(data)/2]
					if half != "" {
						err = vroot.WriteFile(dst, to+".part", []byte(half), 0o640)
						if err == nil {
							err = vroot.WriteFile(dst, to+".part.etag", []byte("v"), 0o640)
						}
					}
					if err == nil {
						err = anyPull{}.Pull(context.Background(), dst, to, fsutil.NewFsSource[anyFs, vroot.File](src, n, "v"), fsutil.ContentInfo{ETag: "v", Size: size}, 0o640)
					}
				case "Push":
					err = anyPull{}.Push(context.Background(), src, n, fsutil.NewFsSink[anyFs, vroot.File](dst, to, 0o640), fsutil.ContentInfo{ETag: "v", Size: size})
				}
				if err != nil {
					break
				}
			}
		case "AddFS":
			graft(want, tree, "r")
			err = dst.(interface {
				AddFS(string, fs.FS, synthfs.AddFunc) error
			}).AddFS("r", iofs, nil)
		}
		if err != nil {
			c.Fail("fails:"+way, "%s fails: %v", c.History(), err)
		}
		w, g := dump(ofRef(want), false), dump(Sys{Fs: dst}, false)
		if w != g {
			c.Fail("unfaithful:"+way, "%s leaves\n%s\nexpected\n%s", c.History(), g, w)
		}
		if g := dump(Sys{Fs: src}, false); g != before {
			c.Fail("source:"+way, "%s changes the source from\n%s\nto\n%s", c.History(), before, g)
		}
		c.Distinct(way + sp.name + dp.name + w)
	}
}

// views looks at every tree at every place in every way.
func views(places []place) func(c *core.C) {
	return func(c *core.C) {
		p := places[c.Choose(len(places))]
		lines := chooseTree(c)
		ref := refOf(lines)
		dangling := false
		for _, l := range lines {
			if a, _, ok := strings.Cut(l, "->"); ok {
				if _, err := ref.Stat(a); err != nil {
					dangling = true
				}
			}
		}
		open, end := p.mk(lines)
		defer end()
		f := open()
		s := Sys{Fs: f, Label: p.name}
		c.Logf("%s holding %v", p.name, lines)
		c.Step()
		if w, g := dump(ofRef(ref), false), dump(s, false); w != g {
			c.Fail("tree:"+p.name, "%s shows\n%s\nit holds\n%s", p.name, g, w)
		}
		for _, q := range []string{".", "a", "d", "d/b", "d/s", "d/s/c", "d/up", "e", "l", "dl", "dl/b", "dl/s/c", "dl/up", "nope", "a/x", "d/nope", "l/x"} {
			if w, g := query(ofRef(ref), q), query(s, q); loose(w) != loose(g) {
				c.Fail("query:"+p.name, "%s holding %v answers\n%sit should answer\n%s", p.name, lines, g, w)
			}
		}
		for _, q := range []string{".", "d", "dl"} {
			for _, n := range []int{1, 2} {
				if w, g := pages(ofRef(ref), q, n), pages(s, q, n); w != g && !strings.HasPrefix(w, "open") && !strings.HasPrefix(w, "readdir") && !strings.HasSuffix(g, "seek fail") {
					c.Fail("pages:"+p.name, "%s holding %v lists %s by %d as %s, expected %s", p.name, lines, q, n, g, w)
				}
			}
		}
		for _, resolve := range []bool{false, true} {
			w := &modelWalk{f: ref, resolve: resolve, re: reaction{at: -1}}
			_ = w.run(".")
			var got []visit
			err := vroot.WalkDir(f, ".", &vroot.WalkOption{ResolveSymlink: resolve}, func(q, real string, fi fs.FileInfo, err error) error {
				what := infoKind(fi)
				if err != nil {
					what = "error"
				}
				got = append(got, visit{q, cleanReal(real), what})
				return nil
			})
			if err != nil || fmt.Sprint(got) != fmt.Sprint(w.out) {
				c.Fail("walk:"+p.name, "%s holding %v: WalkDir (resolve: %v) visits %v (%v), expected %v", p.name, lines, resolve, got, err, w.out)
			}
		}
		if !dangling {
			var expect []string
			for _, l := range lines {
				n, _, _ := strings.Cut(strings.ReplaceAll(l, "->", "="), "=")
				expect = append(expect, strings.TrimSuffix(n, "/"))
			}
			if err := fstest.TestFS(vroot.ToIoFs(f), expect...); err != nil {
				c.Fail("testfs:"+p.name, "%s holding %v: %v", p.name, lines, err)
			}
		}
		c.Distinct(p.name + strings.Join(lines, " "))
	}
}

// loose treats the kinds of failure of a lookup below a file alike: protocols differ.
func loose(s string) string {
	for _, k := range []string{"notdir", "notexist"} {
		s = strings.ReplaceAll(s, k, "fail")
	}
	return s
}
