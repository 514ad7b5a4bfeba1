package vr

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"testing/fstest"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// V08: building a synthetic file system from views and from other file
// systems. The result of every AddFile and AddFS is computed on the reference
// file system from what the resolver was asked and answered; a counting view
// behind every file tells which views the tree still names.

var errFault = errors.New("injected fault")

// cview counts what is done to a view.
type cview struct {
	synthfs.FileView
	id     int
	opens  int
	closed int
	late   int  // opened after having been closed
	noOpen bool // refuse to open
	noStat bool
}

func (v *cview) Open(flag int) (vroot.File, error) {
	if v.noOpen {
		return nil, errFault
	}
	v.opens++
	if v.closed > 0 {
		v.late++
	}
	return v.FileView.Open(flag)
}

func (v *cview) Stat() (fs.FileInfo, error) {
	if v.noStat {
		return nil, errFault
	}
	return v.FileView.Stat()
}

func (v *cview) Close() error {
	v.closed++
	return v.FileView.Close()
}

// pool makes and remembers views.
type pool struct {
	mem    synthfs.FileViewAllocator
	all    []*cview
	refuse bool // refuse to allocate
	noOpen bool // allocate views that do not open
}

func newPool() *pool { return &pool{mem: synthfs.NewMemAllocator(nil)} }

func (p *pool) wrap(v synthfs.FileView) *cview {
	c := &cview{FileView: v, id: len(p.all)}
	p.all = append(p.all, c)
	return c
}

func (p *pool) Allocate(name string, perm fs.FileMode) (synthfs.FileView, error) {
	if p.refuse {
		return nil, errFault
	}
	v, err := p.mem.Allocate(name, perm)
	if err != nil {
		return nil, err
	}
	c := p.wrap(v)
	c.noOpen = p.noOpen
	return c, nil
}

// accounts checks that exactly the views without a name have been closed, each
// once.
func (p *pool) accounts(c *core.C, r *synthfs.Root, key string, unbound map[*cview]bool) {
	for _, v := range p.all {
		v.opens = 0
	}
	var walk func(dir string)
	walk = func(dir string) {
		d, err := r.Open(dir)
		if err != nil {
			c.Fail(key+": the tree cannot be read", "open %s: %v", dir, err)
			return
		}
		es, err := d.ReadDir(-1)
		_ = d.Close()
		if err != nil {
			c.Fail(key+": the tree cannot be read", "list %s: %v", dir, err)
		}
		for _, e := range es {
			n := path.Join(dir, e.Name())
			switch {
			case e.IsDir():
				walk(n)
			case e.Type().IsRegular():
				if f, err := r.Open(n); err == nil {
					_ = f.Close()
				} else {
					c.Fail(key+": a file cannot be opened", "open %s: %v", n, err)
				}
			}
		}
	}
	walk(".")
	for _, v := range p.all {
		switch {
		case unbound[v] && v.opens == 0:
			// Never part of the tree: the caller's.
			if v.closed > 0 {
				c.Fail(key+": a view that was not taken is closed", "view %d closed %d times", v.id, v.closed)
			}
		case v.opens > 0 && v.closed > 0:
			c.Fail(key+": a view is closed while a name still leads to it", "view %d closed %d times, reachable by %d names", v.id, v.closed, v.opens)
		case v.opens == 0 && v.closed == 0:
			c.Fail(key+": a view without a name is never closed", "view %d", v.id)
		case v.opens == 0 && v.closed > 1:
			c.Fail(key+": a view is closed twice", "view %d closed %d times", v.id, v.closed)
		}
		v.late = 0
	}
}

// srcFS is a source whose calls can be made to fail.
type srcFS struct {
	fstest.MapFS
	calls, fail int
}

func (s *srcFS) hit() error {
	s.calls++
	if s.fail > 0 && s.calls == s.fail {
		return errFault
	}
	return nil
}

func (s *srcFS) Open(name string) (fs.File, error) {
	if err := s.hit(); err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	f, err := s.MapFS.Open(name)
	if err != nil {
		return nil, err
	}
	if d, ok := f.(fs.ReadDirFile); ok {
		return &srcDir{d, s, name}, nil
	}
	return f, nil
}

type srcDir struct {
	fs.ReadDirFile
	s    *srcFS
	name string
}

func (d *srcDir) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := d.s.hit(); err != nil {
		return nil, &fs.PathError{Op: "readdir", Path: d.name, Err: err}
	}
	return d.ReadDirFile.ReadDir(n)
}

// srcLinkFS also shows links.
type srcLinkFS struct{ *srcFS }

func (s srcLinkFS) Lstat(name string) (fs.FileInfo, error) {
	if err := s.hit(); err != nil {
		return nil, &fs.PathError{Op: "lstat", Path: name, Err: err}
	}
	return s.MapFS.Lstat(name)
}

func (s srcLinkFS) ReadLink(name string) (string, error) {
	if err := s.hit(); err != nil {
		return "", &fs.PathError{Op: "readlink", Path: name, Err: err}
	}
	return s.MapFS.ReadLink(name)
}

// srcOnly hides the optional methods of MapFS.
type srcOnly struct{ s *srcFS }

func (s srcOnly) Open(name string) (fs.File, error) { return s.s.Open(name) }

var srcTime = time.Unix(2_000_000, 0)

// newSrc builds a source from lines as seed does, each entry with a mode and a
// time of its own.
func newSrc(lines []string) *srcFS {
	m := fstest.MapFS{}
	for i, l := range lines {
		mt := srcTime.Add(time.Duration(i) * time.Hour)
		switch {
		case strings.HasSuffix(l, "/"):
			m[strings.TrimSuffix(l, "/")] = &fstest.MapFile{Mode: fs.ModeDir | 0o773, ModTime: mt}
		case strings.Contains(l, "->"):
			n, t, _ := strings.Cut(l, "->")
			m[n] = &fstest.MapFile{Mode: fs.ModeSymlink | 0o777, ModTime: mt, Data: []byte(t)}
		default:
			n, t, _ := strings.Cut(l, "=")
			m[n] = &fstest.MapFile{Mode: 0o646, ModTime: mt, Data: []byte(t)}
		}
	}
	return &srcFS{MapFS: m}
}

var sources = [][]string{
	{"a=SA"},
	{"a/", "a/x=SX", "b=SB"},
	{"a->b", "b=SB2", "e/"},
	{"a/", "a/x/", "a/x/y=SY", "l->../up"},
	{"l/", "l/x=SL"},
}

var assemblyStarts = [][]string{
	{},
	{"a=old", "b/", "b/x=old2"},
	{"a/", "a/x=old", "a/y/", "a/y/z=deep"},
	{"a/", "a/x/", "a/x/y=old", "l->a"},
	{"a=one", "b&a", "l->gone"},
	{"m/", "m/a=old", "m/b/", "m/b/x=deep", "m/l->../m"},
}

// asked is one call of the resolver.
type asked struct {
	path     string
	inc, old string // "" = none
	dec      synthfs.AddDecision
	err      error
}

func infoString(e synthfs.AddEntry) string {
	if e == nil {
		return "nothing"
	}
	return entryString(e.Info())
}

func entryString(i fs.FileInfo) string {
	if i.Mode().IsRegular() {
		return fmt.Sprintf("%v %d", i.Mode(), i.Size())
	}
	// The permission bits of links are nobody's business.
	if i.Mode()&fs.ModeSymlink != 0 {
		return "link"
	}
	return i.Mode().String()
}

var errAbort = errors.New("the resolver aborts")

// assembly runs additions on both sides.
type assembly struct {
	c       *core.C
	r       *synthfs.Root
	ref     *reffs.FS
	umask   fs.FileMode
	p       *pool
	unbound map[*cview]bool
	log     []asked
	key     string
	last    bool // the last addition is explored in full
}

// modelStop ends the model's walk: why is what the caller is told.
type modelStop struct{ why string }

func (e modelStop) Error() string { return e.why }

func (a *assembly) resolver() (string, synthfs.AddFunc) {
	all := []string{"nil", "MergeOverwrite", "MergeKeep", "FailOnConflict", "chosen"}
	if !a.last {
		all = []string{"nil", "Override"}
	}
	name := core.Pick(a.c, all...)
	var f synthfs.AddFunc
	switch name {
	case "nil":
		return name, nil
	case "MergeOverwrite":
		f = synthfs.MergeOverwrite
	case "MergeKeep":
		f = synthfs.MergeKeep
	case "FailOnConflict":
		f = synthfs.FailOnConflict
	case "Override":
		f = func(_, _ synthfs.AddEntry) (synthfs.AddDecision, error) { return synthfs.AddDecisionOverride, nil }
	case "chosen":
		f = func(_, _ synthfs.AddEntry) (synthfs.AddDecision, error) {
			switch a.c.Choose(4) {
			case 0:
				return synthfs.AddDecisionOverride, nil
			case 1:
				return synthfs.AddDecisionKeep, nil
			case 2:
				return synthfs.AddDecisionSkip, nil
			}
			return synthfs.AddDecisionOverride, errAbort
		}
	}
	return name, func(inc, old synthfs.AddEntry) (synthfs.AddDecision, error) {
		if old != nil && old.Path() != inc.Path() {
			a.c.Fail(a.key+": resolver told of another path", "incoming %s, existing %s", inc.Path(), old.Path())
		}
		d, err := f(inc, old)
		a.log = append(a.log, asked{inc.Path(), infoString(inc), infoString(old), d, err})
		return d, err
	}
}

// decide is the model's turn to ask.
func (a *assembly) decide(which string, i *int, p string, inc fs.FileInfo, old fs.FileInfo) (synthfs.AddDecision, error) {
	is, os := entryString(inc), "nothing"
	if old != nil {
		os = entryString(old)
	}
	// The ready-made resolvers, from their documentation.
	want := synthfs.AddDecisionOverride
	var werr error
	both := old != nil && inc.IsDir() && old.IsDir()
	switch {
	case old == nil:
	case both || which == "MergeKeep":
		want = synthfs.AddDecisionKeep
	case which == "FailOnConflict":
		want, werr = synthfs.AddDecisionSkip, fs.ErrExist
	}
	if which == "nil" {
		return want, werr
	}
	if *i >= len(a.log) {
		a.c.Fail(a.key+": an entry is placed without asking the resolver", "%s was not asked for, only %v", p, a.log)
		a.c.Prune()
	}
	got := a.log[*i]
	*i++
	if got.err == error(modelStop{"cut"}) {
		return 0, got.err
	}
	if got.path != p || got.inc != is || got.old != os {
		a.c.Fail(a.key+": the resolver is asked about something else", "asked %q: %s over %s; there is %q: %s over %s", got.path, got.inc, got.old, p, is, os)
		a.c.Prune()
	}
	if which != "chosen" && which != "Override" && (got.dec != want || !errors.Is(got.err, werr)) {
		a.c.Fail(a.key+": "+which+" decides otherwise than documented", "%s over %s: %v, %v; documented %v, %v", is, os, got.dec, got.err, want, werr)
	}
	return got.dec, got.err
}

func (a *assembly) lstat(p string) fs.FileInfo {
	fi, err := a.ref.Lstat(p)
	if err != nil {
		return nil
	}
	return fi
}

// parents is the model of the scaffolding.
func (a *assembly) parents(name string) error {
	if path.Clean(name) == "." {
		return modelStop{"any"}
	}
	if !fs.ValidPath(path.Clean(name)) {
		return modelStop{"escape"}
	}
	dir := path.Dir(path.Clean(name))
	if dir == "." {
		return nil
	}
	done := ""
	for _, s := range strings.Split(dir, "/") {
		done = path.Join(done, s)
		fi, err := a.ref.Stat(done)
		switch {
		case err == nil && fi.IsDir():
		case err == nil:
			return modelStop{"any"}
		case class(err, false) == "escape":
			return modelStop{"escape"}
		case !errors.Is(err, fs.ErrNotExist) || a.lstat(done) != nil:
			return modelStop{"any"}
		default:
			if err := a.ref.Mkdir(done, 0o755&^a.umask); err != nil {
				panic(err)
			}
		}
	}
	return nil
}

// placed is an entry whose metadata must be the source's.
type placed struct {
	p    string
	info fs.FileInfo
}

func (a *assembly) place(p string, i fs.FileInfo, data string) {
	must := func(err error) {
		if err != nil {
			panic(fmt.Sprint("model: ", p, ": ", err))
		}
	}
	must(a.ref.RemoveAll(p))
	switch {
	case i.IsDir():
		must(a.ref.Mkdir(p, i.Mode().Perm()))
		must(a.ref.Chmod(p, i.Mode().Perm()))
	case i.Mode()&fs.ModeSymlink != 0:
		must(a.ref.Symlink(data, p))
	default:
		a.ref.Put(p, data, i.Mode().Perm())
		must(a.ref.Chmod(p, i.Mode().Perm()))
	}
}

// addFile is the model of AddFile.
func (a *assembly) addFile(name, which string, i fs.FileInfo, data string, out *[]placed) error {
	if err := a.parents(name); err != nil {
		return err
	}
	n, at := path.Clean(name), 0
	old := a.lstat(n)
	dec, err := a.decide(which, &at, n, i, old)
	if err != nil {
		return err
	}
	if dec == synthfs.AddDecisionOverride {
		a.place(n, i, data)
		*out = append(*out, placed{n, i})
	}
	return nil
}

// addFS is the model of AddFS, calling mark after every entry it placed.
func (a *assembly) addFS(name, which string, src fstest.MapFS, links bool, out *[]placed, mark func()) error {
	at := 0
	var walk func(p, s string) error
	below := func(p, s string) error {
		es, err := fs.ReadDir(src, s)
		if err != nil {
			panic(err)
		}
		sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
		for _, e := range es {
			if err := walk(path.Join(p, e.Name()), path.Join(s, e.Name())); err != nil {
				return err
			}
		}
		return nil
	}
	walk = func(p, s string) error {
		i, err := src.Lstat(s)
		if !links {
			i, err = fs.Stat(src, s)
		}
		if err != nil {
			return modelStop{"any"}
		}
		old := a.lstat(p)
		dec, err := a.decide(which, &at, p, i, old)
		if err != nil {
			return err
		}
		data := ""
		switch {
		case dec == synthfs.AddDecisionSkip:
			return nil
		case dec == synthfs.AddDecisionKeep && i.IsDir() && (old == nil || old.IsDir()):
			if old != nil {
				return below(p, s)
			}
		case dec == synthfs.AddDecisionKeep:
			return nil
		case i.IsDir():
		case i.Mode()&fs.ModeSymlink != 0:
			data, _ = src.ReadLink(s)
		default:
			b, err := fs.ReadFile(src, s)
			if err != nil {
				panic(err)
			}
			data = string(b)
		}
		a.place(p, i, data)
		*out = append(*out, placed{p, i})
		mark()
		if i.IsDir() {
			return below(p, s)
		}
		return nil
	}
	if path.Clean(name) == "." {
		return below(".", ".")
	}
	if err := a.parents(name); err != nil {
		return err
	}
	mark()
	return walk(path.Clean(name), ".")
}

// outcome compares the two errors.
func (a *assembly) outcome(call string, got, want error) {
	var st modelStop
	switch {
	case want == nil && got != nil:
		a.c.Fail(a.key+": fails where it should succeed", "%s: %v", call, got)
	case want == nil:
	case got == nil:
		a.c.Fail(a.key+": succeeds where it should fail", "%s should fail with %v", call, want)
	case errors.As(want, &st):
		if st.why != "any" && class(got, false) != st.why {
			a.c.Fail(a.key+": fails with the wrong error", "%s: %v instead of %s", call, got, st.why)
		}
	case !errors.Is(got, want):
		a.c.Fail(a.key+": does not hand on the resolver's error", "%s: %v instead of %v", call, got, want)
	}
}

func (a *assembly) compare(call string) {
	if want, got := dump(ofRef(a.ref), true), dump(Sys{Fs: vroot.Widen[vroot.File](a.r)}, true); got != want {
		a.c.Fail(a.key+": the tree differs", "after %s:\n%swanted:\n%s", call, got, want)
	}
}

// meta checks what was placed and is still there.
func (a *assembly) meta(ps []placed) {
	for _, p := range ps {
		fi, err := a.r.Lstat(p.p)
		if err != nil || fi.Mode().Type() != p.info.Mode().Type() {
			continue // replaced by a later step: compare saw it
		}
		if !fi.ModTime().Equal(p.info.ModTime()) {
			a.c.Fail(a.key+": an added entry does not have its source's time", "%s: %v instead of %v", p.p, fi.ModTime(), p.info.ModTime())
		}
	}
}

func (a *assembly) stepFile(names []string) {
	c := a.c
	name := core.Pick(c, names...)
	which, cb := a.resolver()
	a.key, a.log = "AddFile", nil
	mt := srcTime.Add(time.Duration(len(a.p.all)) * time.Minute)
	data := fmt.Sprint("new", len(a.p.all))
	v := a.p.wrap(synthfs.NewBytesView([]byte(data), 0o604, mt))
	v.noStat = a.last && c.Bool()
	a.unbound[v] = true
	call := fmt.Sprintf("AddFile(%s, %s)", name, which)
	c.Logf("%s", call)
	err := a.r.AddFile(name, v, cb)
	if v.noStat {
		v.noStat = false
		if !errors.Is(err, errFault) {
			c.Fail("AddFile: a view's failure is not reported", "%s: %v", call, err)
		}
		return
	}
	info, _ := v.Stat()
	var out []placed
	want := a.addFile(name, which, fileInfo{info, path.Base(name)}, data, &out)
	if len(out) > 0 {
		delete(a.unbound, v)
	}
	a.outcome(call, err, want)
	a.meta(out)
	a.compare(call)
}

type fileInfo struct {
	fs.FileInfo
	name string
}

func (f fileInfo) Name() string { return f.name }

func (a *assembly) stepFS(names []string, faults bool) {
	c := a.c
	name := core.Pick(c, names...)
	si := c.Choose(len(sources))
	links := c.Bool()
	which, cb := a.resolver()
	a.key, a.log = "AddFS", nil
	src := newSrc(sources[si])
	if faults {
		src.fail = 1 + c.Choose(24)
	}
	var in fs.FS = srcOnly{src}
	if links {
		in = srcLinkFS{src}
	}
	call := fmt.Sprintf("AddFS(%s, %v, links shown: %v, %s)", name, sources[si], links, which)
	c.Logf("%s", call)
	if faults {
		c.Logf("call %d on the source fails", src.fail)
	}
	err := a.r.AddFS(name, in, cb)
	hit := src.fail > 0 && src.calls >= src.fail
	if faults && !hit {
		c.Prune()
	}
	src.fail = 0
	var out []placed
	if hit {
		if !errors.Is(err, errFault) {
			c.Fail("AddFS: a failure of the source is not reported", "%s: %v", call, err)
			return
		}
		// The tree is what it was after some entry.
		got := dump(Sys{Fs: vroot.Widen[vroot.File](a.r)}, true)
		seen := dump(ofRef(a.ref), true) == got
		a.cut(func() {
			_ = a.addFS(name, which, src.MapFS, links, &out, func() {
				seen = seen || dump(ofRef(a.ref), true) == got
			})
		})
		if !seen {
			c.Fail("AddFS: a failing source leaves something else than the entries before it", "%s left:\n%s", call, got)
		}
		return
	}
	want := a.addFS(name, which, src.MapFS, links, &out, func() {})
	a.outcome(call, err, want)
	a.meta(out)
	a.compare(call)
	// Files are read through the source: what changes there shows here.
	for _, f := range src.MapFS {
		if f.Mode.IsRegular() {
			f.Data = append([]byte("later "), f.Data...)
		}
	}
	for _, p := range out {
		if !p.info.Mode().IsRegular() {
			continue
		}
		if fi := a.lstat(p.p); fi == nil || !fi.Mode().IsRegular() {
			continue
		}
		old, _ := a.ref.Get(p.p)
		want := "later " + old
		got, err := vroot.ReadFile(vroot.Widen[vroot.File](a.r), p.p)
		if err != nil || string(got) != want {
			c.Fail("AddFS: a file does not follow its source", "%s reads %q, %v; the source holds %q", p.p, got, err, want)
		}
		if fi, err := a.r.Stat(p.p); err != nil || fi.Size() != int64(len(want)) {
			c.Fail("AddFS: a file's size does not follow its source", "%s: %v, %v; the source holds %d bytes", p.p, fi, err, len(want))
		}
		a.ref.Put(p.p, want, p.info.Mode().Perm())
	}
}

// cut runs fn until the recorded questions run out.
func (a *assembly) cut(fn func()) {
	n := len(a.log)
	a.log = append(a.log, asked{err: modelStop{"cut"}})
	fn()
	a.log = a.log[:n]
}

func seedAssembly(r vroot.Fs[vroot.File], ref *reffs.FS, lines []string) {
	seed(r, lines)
	seed(ofRef(ref).Fs, lines)
}

func assemblyScenario(name string, sub bool, steps int, faults bool, names []string) core.Scenario {
	return core.Scenario{Name: name, Bound: fmt.Sprintf("%d start trees, %d targets, %d sources with and without links, nil, three ready-made and all chosen resolvers (the default and always-override before the last), %d additions", len(assemblyStarts), len(names), len(sources), steps), Body: func(c *core.C) {
		p := newPool()
		mask := fs.FileMode(core.Pick(c, 0o027, 0))
		top := synthfs.NewRoot("synth", &synthfs.Option{Allocator: p, Umask: &mask})
		_ = top.Chmod(".", 0o755)
		r, ref := top, reffs.New()
		start := core.Pick(c, assemblyStarts...)
		c.Logf("start %v, umask %o", start, mask)
		if sub {
			_ = top.Mkdir("s", 0o755)
			if f, err := top.Create("s0"); err == nil {
				_ = f.Close()
			}
			s, err := top.OpenRoot("s")
			if err != nil {
				panic(err)
			}
			r = s
			_ = r.Chmod(".", 0o755)
		}
		seedAssembly(vroot.Widen[vroot.File](r), ref, start)
		// The modes of the start trees are the same under any mask.
		for _, l := range start {
			n := strings.FieldsFunc(l, func(r rune) bool { return strings.ContainsRune("=-&", r) })[0]
			n = strings.TrimSuffix(n, "/")
			if fi, err := ref.Lstat(n); err == nil && fi.Mode()&fs.ModeSymlink == 0 {
				_ = r.Chmod(n, fi.Mode().Perm())
			}
		}
		a := &assembly{c: c, r: r, ref: ref, umask: mask, p: p, unbound: map[*cview]bool{}, key: "start"}
		a.compare("start")
		a.outcomeViews(top)
		for i := range steps {
			a.last = i == steps-1
			switch {
			case faults && a.last:
				a.stepFS(names, true)
			case c.Bool():
				a.stepFS(names, false)
			default:
				a.stepFile(names)
			}
			a.outcomeViews(top)
		}
		if sub {
			if es, err := vroot.ReadDir(vroot.Widen[vroot.File](top), "."); err != nil || len(es) != 2 {
				c.Fail("an addition below a sub-root reaches outside it", "the parent holds %v, %v", es, err)
			}
		}
	}}
}

func (a *assembly) outcomeViews(top *synthfs.Root) {
	a.p.accounts(a.c, top, a.key, a.unbound)
	if a.c.Fresh() {
		a.c.Distinct(dump(ofRef(a.ref), true))
	}
}

// viewHistory: whatever is done to the tree, exactly the views without a name
// are closed.
func viewHistory(name string, depth int) core.Scenario {
	ops := []Op{
		{Kind: "create", A: "a"}, {Kind: "create", A: "d/a"}, {Kind: "create", A: "l"},
		{Kind: "link", A: "a", B: "b"}, {Kind: "link", A: "d/a", B: "b"}, {Kind: "link", A: "l", B: "e/b"},
		{Kind: "remove", A: "a"}, {Kind: "remove", A: "b"}, {Kind: "remove", A: "d/a"},
		{Kind: "removeall", A: "d"}, {Kind: "removeall", A: "a"}, {Kind: "removeall", A: "e"},
		{Kind: "rename", A: "a", B: "b"}, {Kind: "rename", A: "b", B: "a"}, {Kind: "rename", A: "d", B: "e"}, {Kind: "rename", A: "a", B: "d/a"},
		{Kind: "rename", A: "d/a", B: "a"},
		{Kind: "addfile", A: "a"}, {Kind: "addfile", A: "d"}, {Kind: "addfile", A: "d/a"},
		{Kind: "addfs", A: "d"}, {Kind: "addfs-override", A: "d"}, {Kind: "addfs", A: "."},
		{Kind: "create-noalloc", A: "b"}, {Kind: "create-noopen", A: "b"}, {Kind: "create-noalloc", A: "a"},
	}
	return core.Scenario{Name: name, Bound: bound(1, len(ops), depth, true), Body: func(c *core.C) {
		p := newPool()
		r := synthfs.NewRoot("synth", &synthfs.Option{Allocator: p, Umask: zeroMask()})
		_ = r.Chmod(".", 0o755)
		w := Sys{Fs: vroot.Widen[vroot.File](r)}
		seed(w.Fs, []string{"a=one", "d/", "d/a=two", "e/", "l->a"})
		p.accounts(c, r, "start", nil)
		for i := range depth {
			o := core.Pick(c, ops...)
			c.Logf("%v", o)
			c.Step()
			before := ""
			unbound := map[*cview]bool{}
			key := o.Kind
			switch o.Kind {
			case "addfile":
				v := p.wrap(synthfs.NewBytesView([]byte("v"), 0o600, epoch))
				unbound[v] = r.AddFile(o.A, v, nil) != nil
			case "addfs", "addfs-override":
				var cb synthfs.AddFunc
				if o.Kind != "addfs" {
					cb = func(_, _ synthfs.AddEntry) (synthfs.AddDecision, error) { return synthfs.AddDecisionOverride, nil }
				}
				_ = r.AddFS(o.A, srcLinkFS{newSrc([]string{"a->b", "b=1"})}, cb)
			case "create-noalloc", "create-noopen":
				before = dump(w, true)
				_, lerr := r.Lstat(o.A)
				n := len(p.all)
				p.refuse, p.noOpen = o.Kind == "create-noalloc", o.Kind == "create-noopen"
				f, err := r.OpenFile(o.A, os.O_RDWR|os.O_CREATE, 0o644)
				p.refuse, p.noOpen = false, false
				if err == nil {
					_ = f.Close()
				}
				if lerr != nil && !errors.Is(err, errFault) {
					c.Fail(key+": a view's failure is not reported", "open %s, which %v: %v", o.A, lerr, err)
				}
				if err != nil && f != nil && !isNilFile(f) {
					c.Fail(key+": an error and a file", "open %s", o.A)
				}
				for _, v := range p.all[n:] {
					v.noOpen = false
				}
				if got := dump(w, true); got != before {
					c.Fail(key+": an open that failed leaves a file", "open %s:\n%sbefore:\n%s", o.A, got, before)
				}
			default:
				_ = apply(w, o, false)
			}
			p.accounts(c, r, key, unbound)
			for v := range unbound {
				if unbound[v] {
					p.all = p.all[:len(p.all)-1]
				}
			}
			if c.Fresh() && !c.Visit(viewState(w, p), depth-i-1) {
				return
			}
		}
	}}
}

// viewState is the tree together with which view is behind which file.
func viewState(w Sys, p *pool) string {
	s := dump(w, true)
	for _, v := range p.all {
		s += fmt.Sprint(v.id, " ", v.closed, ";")
	}
	return s
}

// sectionScenario: a view over bytes, over a file of another file system and
// over a part of either reads as exactly those bytes.
func sectionScenario(name string, depth int) core.Scenario {
	const text = "0123456789"
	return core.Scenario{Name: name, Bound: fmt.Sprintf("three inner views of 10 bytes, all 55 ranges and a range of a range, all sequences of %d handle calls", depth), Body: func(c *core.C) {
		var v synthfs.FileView
		kind := core.Pick(c, "bytes", "fs", "mem")
		switch kind {
		case "bytes":
			v = synthfs.NewBytesView([]byte(text), 0o640, srcTime)
		case "fs":
			m := fstest.MapFS{"d/f": &fstest.MapFile{Data: []byte(text), Mode: 0o640, ModTime: srcTime}}
			fv, err := synthfs.NewFsView(m, "d/f")
			if err != nil {
				panic(err)
			}
			v = fv
		case "mem":
			mv, err := synthfs.NewMemAllocator(nil).Allocate("f", 0o640)
			if err != nil {
				panic(err)
			}
			f, err := mv.Open(os.O_RDWR)
			if err != nil {
				panic(err)
			}
			_, _ = f.Write([]byte(text))
			_ = f.Close()
			v = mv
		}
		want := text
		for c.Bool() {
			if len(want) < 2 {
				return
			}
			off := c.Choose(len(want))
			n := 1 + c.Choose(len(want)-off)
			if len(want) < len(text) && (off > 2 || n < len(want)-off-1) {
				return
			}
			kind += fmt.Sprintf("[%d:+%d]", off, n)
			rv, err := synthfs.NewRangedView(v, int64(off), int64(n))
			if err != nil {
				c.Fail("NewRangedView refuses a range of its view", "%s: %v", kind, err)
				return
			}
			v, want = rv, want[off:off+n]
			if strings.Count(kind, "[") == 2 {
				break
			}
		}
		whole := !strings.Contains(kind, "[")
		c.Logf("%s", kind)
		fi, err := v.Stat()
		if err != nil || fi.Size() != int64(len(want)) || fi.Mode() != 0o640 {
			c.Fail("a view's Stat is not its content's", "%s: %v, %v, %d bytes", kind, fi, err, len(want))
		}
		r := synthfs.NewRoot("synth", nil)
		if err := r.AddFile("f", v, nil); err != nil {
			c.Fail("AddFile refuses a view", "%s: %v", kind, err)
			return
		}
		if !(whole && strings.HasPrefix(kind, "mem")) {
			for _, flag := range []int{os.O_WRONLY, os.O_RDWR, os.O_RDONLY | os.O_TRUNC, os.O_WRONLY | os.O_APPEND, os.O_RDWR | os.O_CREATE} {
				if f, err := r.OpenFile("f", flag, 0o600); err == nil {
					_ = f.Close()
					c.Fail("a read-only view opens for writing", "%s: %s", kind, flagString(flag))
				}
			}
		}
		f, err := r.Open("f")
		if err != nil {
			c.Fail("a view does not open", "%s: %v", kind, err)
			return
		}
		defer f.Close()
		ref := strings.NewReader(want)
		for range depth {
			c.Step()
			switch o := core.Pick(c, "read", "readat", "seek", "write"); o {
			case "read":
				n := core.Pick(c, 1, 4, 20)
				a, b := make([]byte, n), make([]byte, n)
				an, aerr := f.Read(a)
				bn, berr := ref.Read(b)
				c.Logf("read(%d)", n)
				if an < 0 || an > n || string(a[:an]) != string(b[:bn]) || aerr != nil && aerr != io.EOF || aerr == nil && berr != nil {
					c.Fail("a view reads other bytes than its range", "%s: read %q, %v instead of %q, %v", kind, a[:max(0, min(an, n))], aerr, b[:bn], berr)
				}
			case "readat":
				n, off := core.Pick(c, 1, 3, 20), core.Pick(c, int64(0), 2, int64(len(want))-1, int64(len(want)), -1, int64(len(want))+2)
				if off > int64(len(want)) && kind == "fs" {
					continue // fstest's own rules
				}
				a, b := make([]byte, n), make([]byte, n)
				an, aerr := f.ReadAt(a, off)
				bn, berr := ref.ReadAt(b, off)
				c.Logf("readat(%d@%d)", n, off)
				// Reading nothing, or up to exactly the end, may or may not say EOF.
				eof := off >= 0 && off+int64(an) == int64(len(want)) && (aerr == nil || aerr == io.EOF) && an == n
				if an < 0 || an > n || string(a[:an]) != string(b[:bn]) || (aerr == nil) != (berr == nil) && !eof || off >= 0 && aerr != nil && aerr != io.EOF {
					c.Fail("a view reads other bytes than its range", "%s: readat(%d) %q, %v instead of %q, %v", kind, off, a[:max(0, min(an, n))], aerr, b[:bn], berr)
				}
			case "seek":
				off, wh := core.Pick(c, int64(0), 3, -2), c.Choose(3)
				at, _ := ref.Seek(0, io.SeekCurrent)
				if at, _ := ref.Seek(off, wh); at > int64(len(want)) && kind == "fs" {
					return
				}
				_, _ = ref.Seek(at, io.SeekStart)
				an, aerr := f.Seek(off, wh)
				bn, berr := ref.Seek(off, wh)
				c.Logf("seek(%d,%d)", off, wh)
				if (aerr == nil) != (berr == nil) || aerr == nil && an != bn {
					c.Fail("a view seeks elsewhere", "%s: seek %d, %v instead of %d, %v", kind, an, aerr, bn, berr)
				}
				if berr != nil {
					_, _ = ref.Seek(at, io.SeekStart)
				}
			case "write":
				c.Logf("write")
				if n, err := f.Write([]byte("X")); err == nil || n != 0 {
					c.Fail("a handle opened for reading writes", "%s: %d, %v", kind, n, err)
				}
				if n, err := f.WriteAt([]byte("X"), 0); err == nil || n != 0 {
					c.Fail("a handle opened for reading writes", "%s: %d, %v", kind, n, err)
				}
				if err := f.Truncate(0); err == nil {
					c.Fail("a handle opened for reading truncates", "%s", kind)
				}
			}
		}
		if fi, err := f.Stat(); err != nil || fi.Size() != int64(len(want)) || fi.Name() != "f" {
			c.Fail("a view's handle gives another size or name", "%s: %v, %v", kind, fi, err)
		}
		got, err := vroot.ReadFile(vroot.Widen[vroot.File](r), "f")
		if err != nil || string(got) != want {
			c.Fail("a view reads other bytes than its range", "%s: %q, %v instead of %q", kind, got, err, want)
		}
	}}
}

func init() {
	targets := []string{"a", "b", "m", "a/x", "b/x", "m/b", "l", "l/x", "p/q", "."}
	odd := []string{"", "../a", "/a", "l/../a", "a/x/y/z", "m/l/b"}
	core.Register(&core.Property{
		ID: "V08", Rule: "what AddFile and AddFS leave, what the resolver is asked and which views are closed are what the documentation makes of the resolver's answers, computed on the reference file system",
		Scenarios: func(th bool) (out []core.Scenario) {
			one := append(append([]string{}, targets...), odd...)
			two, d, sec := []string{"a", "a/x", "l/x"}, 5, 2
			if th {
				two, d, sec = targets, 7, 3
			}
			return append(out,
				assemblyScenario("one addition", false, 1, false, one),
				assemblyScenario("one addition below a sub-root", true, 1, false, one),
				assemblyScenario("a source that fails", false, 1, true, []string{"a", "m", "p/q", "."}),
				assemblyScenario("two additions", false, 2, false, two),
				viewHistory("views", d),
				sectionScenario("sections", sec),
			)
		},
	})
}
