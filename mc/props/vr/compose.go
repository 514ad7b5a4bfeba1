package vr

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io/fs"
	"path"
	"strings"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/tarfs"
	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

type anyFs = vroot.Fs[vroot.File]

// place makes a file system holding a tree. open gives it, each time anew.
type place struct {
	name string
	mk   func(tree []string) (open func() anyFs, end func())
	// skip lists what the file system promises otherwise, by itself.
	skip func(ref *reffs.FS, o Op) bool
}

// onSynth skips what synthfs does otherwise by choice, as V05 does.
func onSynth(ref *reffs.FS, o Op) bool {
	switch o.Kind {
	case "link", "rename", "chmod", "chtimes":
		return synthSkip(ref, o)
	}
	return false
}

// onSftp skips what the protocol has no request for.
func onSftp(_ *reffs.FS, o Op) bool { return o.Kind == "lchown" }

func onDir(tree []string, open func(dir string) anyFs) (func() anyFs, func()) {
	dir := scratchDir()
	seed(vroot.Widen(newOsRoot(dir)), tree)
	return func() anyFs { return open(dir) }, func() { dropDir(dir) }
}

var (
	placeOs = place{name: "osfs.Root", mk: func(tree []string) (func() anyFs, func()) {
		return onDir(tree, func(dir string) anyFs { return vroot.Widen(newOsRoot(dir)) })
	}}
	placeOsFs = place{name: "PathPrefixFs over osfs.Fs", mk: func(tree []string) (func() anyFs, func()) {
		return onDir(tree, func(dir string) anyFs {
			o, err := osfs.NewFs(path.Dir(dir))
			if err != nil {
				panic(err)
			}
			f, err := vroot.NewPathPrefixFs(vroot.Widen(o), path.Base(dir))
			if err != nil {
				panic(err)
			}
			return vroot.Widen(f)
		})
	}}
	placeSynth = place{name: "synthfs", mk: func(tree []string) (func() anyFs, func()) {
		r := newSynth()
		seed(vroot.Widen(r), tree)
		return func() anyFs { return vroot.Widen(r) }, nothing
	}, skip: onSynth}
	placeSynthSub = place{name: "synthfs sub-root", mk: func(tree []string) (func() anyFs, func()) {
		r := newSynth()
		if err := r.MkdirAll("q/w", 0o755); err != nil {
			panic(err)
		}
		sub, err := r.OpenRoot("q/w")
		if err != nil {
			panic(err)
		}
		seed(vroot.Widen(sub), tree)
		return func() anyFs { return vroot.Widen(sub) }, nothing
	}, skip: onSynth}
	placeReadOnly = place{name: "ReadOnlyFs over osfs.Root", mk: func(tree []string) (func() anyFs, func()) {
		return onDir(tree, func(dir string) anyFs {
			return vroot.Widen(vroot.NewReadOnlyFs(vroot.Widen(newOsRoot(dir))))
		})
	}}
	placeIoFs = place{name: "FromIoFs(ToIoFsRoot(synthfs))", mk: func(tree []string) (func() anyFs, func()) {
		r := newSynth()
		seed(vroot.Widen(r), tree)
		return func() anyFs { return vroot.FromIoFs(vroot.ToIoFsRoot(r).(fs.ReadLinkFS), "io") }, nothing
	}}
	placeTar = place{name: "FromIoFs(tarfs)", mk: func(tree []string) (func() anyFs, func()) {
		b := tarOf(tree)
		return func() anyFs {
			t, err := tarfs.New(bytes.NewReader(b), &tarfs.FsOption{HandleSymlink: true, IsRooted: true})
			if err != nil {
				panic(err)
			}
			return vroot.FromIoFs(t, "tar")
		}, nothing
	}}
	placeSftp = place{name: "sftpfs", mk: func(tree []string) (func() anyFs, func()) {
		s := newSftp(true)
		seed(s.sys(), tree)
		return func() anyFs { return keepOpen{s.sys().Fs} }, s.close
	}, skip: onSftp}
	placeOverlay = place{name: "overlayfs", mk: func(tree []string) (func() anyFs, func()) {
		// The tree spread over two layers, with something masked.
		r, low := newSynth(), newSynth()
		for _, d := range []string{"merged", "work"} {
			if err := r.Mkdir(d, 0o755); err != nil {
				panic(err)
			}
		}
		seed(vroot.Widen(low), append([]string{"gone=1"}, tree...))
		st := newMemStore()
		return func() anyFs {
			top, err := overlayfs.NewDataSourceCanonicalStore(vroot.Widen(r), st)
			if err != nil {
				panic(err)
			}
			o, err := overlayfs.New(top, []*overlayfs.DataSource{overlayfs.NewDataSource(vroot.Widen(low))}, nil)
			if err != nil {
				panic(err)
			}
			_ = o.Remove("gone")
			return vroot.Widen(o)
		}, nothing
	}}
)

// keepOpen leaves the connection to its owner.
type keepOpen struct{ anyFs }

func (keepOpen) Close() error { return nil }

// tarOf packs a tree.
func tarOf(tree []string) []byte {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	put := func(h *tar.Header, data string) {
		h.ModTime = time.Unix(1_000_000, 0)
		if err := w.WriteHeader(h); err != nil {
			panic(err)
		}
		_, _ = w.Write([]byte(data))
	}
	for _, l := range tree {
		if a, b, ok := strings.Cut(l, "->"); ok {
			put(&tar.Header{Typeflag: tar.TypeSymlink, Name: a, Linkname: b, Mode: 0o777}, "")
		} else if a, b, ok := strings.Cut(l, "="); ok {
			put(&tar.Header{Typeflag: tar.TypeReg, Name: a, Mode: 0o644, Size: int64(len(b))}, b)
		} else {
			put(&tar.Header{Typeflag: tar.TypeDir, Name: l, Mode: 0o755}, "")
		}
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

var (
	topPlaces   = []place{placeSynth, placeOs, placeSftp, placeSynthSub, placeOsFs}
	lowerPlaces = []place{placeTar, placeOs, placeSynth, placeReadOnly, placeIoFs, placeSftp, placeOverlay, placeSynthSub, placeOsFs}
)

// composed is an overlay over real file systems.
type composed struct {
	r      *ovlRun
	top    func() anyFs
	store  *memStore // nil: the default one, in the top
	lowers []func() anyFs
	ends   []func()
	before []string
}

var composeStarts = []ovlSpec{
	{"one lower", "", [][]string{{}, {"a/", "a/x=one", "a/d/", "a/d/y=two", "b=three", "l->a"}}, []bool{false, true}},
	{"half copied up", "", [][]string{{"a/", "a/x=top", "b/"}, {"a/", "a/x=low", "a/d/", "a/d/y=two", "b/", "b/x=hid", "l->a/x"}}, []bool{false, true}},
	{"two lowers", "", [][]string{{}, {"a/", "a/d/", "b=mid", "l->b"}, {"a/", "a/x=low", "a/d/", "a/d/y=two", "b/", "b/x=hid"}}, []bool{false, true, true}},
}

func compose(c *core.C, spec ovlSpec, top place, lowers []place, mem bool) *composed {
	var names []string
	for _, l := range lowers {
		names = append(names, l.name)
	}
	st := spec.build()
	for _, l := range st {
		plainModes(l.content())
	}
	cp := &composed{r: &ovlRun{c: c, name: fmt.Sprintf("%s over %s (%s)", top.name, strings.Join(names, " and "), spec.name), st: st, pure: map[*reffs.Node]bool{}, ref: union(st)}}
	cp.r.markPure()
	seedTop := []string{"merged/", "work/"}
	for _, l := range spec.layers[0] {
		seedTop = append(seedTop, "merged/"+l)
	}
	var end func()
	cp.top, end = top.mk(seedTop)
	cp.ends = append(cp.ends, end)
	for i, l := range lowers {
		open, end := l.mk(spec.layers[i+1])
		cp.lowers, cp.ends = append(cp.lowers, open), append(cp.ends, end)
		cp.before = append(cp.before, dump(Sys{Fs: open()}, false))
	}
	if mem {
		cp.store = newMemStore()
	}
	cp.mount()
	return cp
}

// plainModes gives every node the mode seed gives it.
func plainModes(n *reffs.Node) {
	switch {
	case n.Mode.IsDir():
		n.Mode = fs.ModeDir | 0o755
	case n.Mode.IsRegular():
		n.Mode = 0o644
	}
	for _, k := range n.Kids {
		plainModes(k)
	}
}

func (cp *composed) mount() {
	var top *overlayfs.DataSource
	var err error
	if cp.store != nil {
		top, err = overlayfs.NewDataSourceCanonicalStore(cp.top(), cp.store)
	} else {
		top, err = overlayfs.NewDataSourceCanonical(cp.top())
	}
	if err != nil {
		cp.r.c.Fail("mount", "%s: a top cannot be made: %v", cp.r.name, err)
	}
	var lowers []*overlayfs.DataSource
	for _, l := range cp.lowers {
		lowers = append(lowers, overlayfs.NewDataSource(l()))
	}
	o, err := overlayfs.New(top, lowers, nil)
	if err != nil {
		cp.r.c.Fail("mount", "%s: New: %v\nhistory: %s", cp.r.name, err, cp.r.c.History())
	}
	cp.r.s = ofOverlay(o)
}

func (cp *composed) end() {
	_ = cp.r.s.Close()
	for _, e := range cp.ends {
		e()
	}
}

func (cp *composed) compare(tag string) string {
	r, c := cp.r, cp.r.c
	w, g := dump(ofRef(r.ref), false), dump(r.s, false)
	if w != g {
		c.Fail("tree:"+tag, "after %s the stack %s shows\n%s\none file system holds\n%s\nhistory: %s", tag, r.name, g, w, c.History())
	}
	for i, l := range cp.lowers {
		if d := dump(Sys{Fs: l()}, false); d != cp.before[i] {
			c.Fail("lower:"+tag, "%s over %s changed lower %d from\n%s\nto\n%s\nhistory: %s", tag, r.name, i, cp.before[i], d, c.History())
		}
	}
	return w
}

// composition runs every sequence of ops over the stacks.
func composition(tops, lowers []place, specs []ovlSpec, ops []Op, depth int, mem bool) func(c *core.C) {
	return func(c *core.C) {
		spec := specs[c.Choose(len(specs))]
		var low []place
		for range spec.layers[1:] {
			low = append(low, lowers[c.Choose(len(lowers))])
		}
		top := tops[c.Choose(len(tops))]
		cp := compose(c, spec, top, low, mem)
		defer func() { cp.end() }()
		r := cp.r
		c.Logf("%s", r.name)
		for i := range depth {
			o := ops[c.Choose(len(ops))]
			if r.skip(cleaned(r.s, o)) || top.skip != nil && top.skip(r.ref, cleaned(r.s, o)) || o.Kind == "removeall" && strings.HasSuffix(o.A, "/.") {
				c.Prune()
			}
			c.Step()
			want := r.want(cleaned(r.s, o))
			got := apply(r.s, o, false)
			c.Logf("%v: %s", o, got)
			if !sameComposed(r.s, o, want, got) {
				c.Fail("result:"+o.String(), "%v over %s gives %q, one file system gives %q\nhistory: %s", o, r.name, got, want, c.History())
			}
			if c.Fresh() {
				cp.compare(o.String())
			}
			_ = i
		}
		if c.Fresh() {
			if err := r.s.Close(); err != nil {
				c.Fail("close", "%s: Close gives %v\nhistory: %s", r.name, err, c.History())
			}
			cp.mount()
			w := cp.compare("mounting again")
			es, err := vroot.ReadDir(cp.top(), "work")
			if err != nil || len(es) != 0 {
				c.Fail("work", "%s leaves %d files in work/ (%v)\nhistory: %s", r.name, len(es), err, c.History())
			}
			c.Distinct(w)
		}
	}
}

func sameComposed(s Sys, o Op, want, got string) bool {
	if same(s, o, want, got) {
		return true
	}
	return failed(want) && failed(got) && (want == "loop" || got == "loop")
}

func init() {
	core.Register(&core.Property{
		ID: "C01", Unpriv: true,
		Init: func() error { syscall.Umask(0); return nil },
		Rule: "an overlay whose top and lowers are the module's other file systems gives, for every sequence of operations, the results and the tree one plain directory gives, leaves every lower as it was, and shows the same when mounted again",
		Assumptions: []string{
			"the sftp server is pkg/sftp's own, acting on a real directory",
			"umask 0, one user",
		},
		Scenarios: func(th bool) []core.Scenario {
			ops := ovlOps()
			var out []core.Scenario
			add := func(name string, tops, lowers []place, specs []ovlSpec, depth int, mem bool) {
				var ts, ls []string
				for _, p := range tops {
					ts = append(ts, p.name)
				}
				for _, p := range lowers {
					ls = append(ls, p.name)
				}
				out = append(out, core.Scenario{Name: name, Bound: fmt.Sprintf("tops %s; lowers %s; %d start stacks; every sequence of %d operations out of %d; mounted again at the end", strings.Join(ts, ", "), strings.Join(ls, ", "), len(specs), depth, len(ops)), Body: composition(tops, lowers, specs, ops, depth, mem)})
			}
			add("every pair", topPlaces, lowerPlaces, composeStarts[:2], 1, true)
			add("two lowers", topPlaces[:1], lowerPlaces, composeStarts[2:], 1, true)
			add("default store", topPlaces[:3], lowerPlaces[:3], composeStarts[:2], 1, false)
			add("pairs of operations", topPlaces, lowerPlaces[:1], composeStarts[:2], 2, true)
			add("pairs of operations, lowers", topPlaces[:1], lowerPlaces[1:], composeStarts[:1], 2, true)
			add("pairs of operations, default store", topPlaces[:2], lowerPlaces[1:2], composeStarts[:1], 2, false)
			fl := flagOps()
			out = append(out, core.Scenario{Name: "open flags", Bound: fmt.Sprintf("every pair of places, 2 start stacks, every combination of flags (%d)", len(fl)), Body: composition(topPlaces, lowerPlaces[:3], composeStarts[:2], fl, 1, true)})
			srcs := append(append([]place{}, lowerPlaces...), placeStack)
			dsts := append(append([]place{}, topPlaces...), placeStack)
			out = append(out,
				core.Scenario{Name: "transfers", Bound: fmt.Sprintf("every subset of a tree of 7 parts, from %d places to %d, by CopyAll, CopyPath, SafeWrite, Pull and Push", len(srcs), len(dsts)), Body: transfers(srcs, dsts, false)},
				core.Scenario{Name: "views", Bound: fmt.Sprintf("every subset of a tree of 7 parts at %d places: looked up, read, listed, paged, walked, and checked by testing/fstest", len(srcs)), Body: views(srcs)})
			return out
		},
	})
}
