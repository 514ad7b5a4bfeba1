package vr

import (
	"errors"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// remote is the reference of a remote: everything around the base included.
type remote struct {
	*sftpSys
	ref *reffs.FS
	all Sys // the whole remote, seen without the adapter
	end func()
}

var around = []string{"secret=" + canary, "basement/", "basement/s=" + canary, "d/", "d/s=" + canary}

func newRemote(posix bool, lines []string) *remote {
	r := &remote{sftpSys: newSftp(posix), ref: reffs.New()}
	o := newOsRoot(r.dir)
	r.all = ofRoot[*osfs.File, *osfs.Root]("remote", false, o)
	r.end = func() { r.close(); _ = o.Close(); dropDir(r.dir + "/") }
	_ = r.ref.Mkdir("base", 0o755)
	seed(r.all.Fs, around)
	seed(r.ref, around)
	var in []string
	for _, l := range lines {
		l = "base/" + l
		if a, b, ok := strings.Cut(l, "&"); ok {
			l = a + "&base/" + b
		}
		in = append(in, l)
	}
	seed(r.all.Fs, in)
	seed(r.ref, in)
	return r
}

// inBase is o as the whole remote sees it; false when its paths leave the base.
func inBase(o Op) (Op, bool) {
	p := cleaned(Sys{Cleans: true}, o)
	for _, q := range []*string{&p.A, &p.B} {
		if *q == "" || q == &p.B && o.Kind == "symlink" {
			continue
		}
		if *q == ".." || strings.HasPrefix(*q, "../") || strings.HasPrefix(*q, "/") {
			return p, false
		}
		*q = path.Join("base", *q)
	}
	return p, true
}

// onBase operations on the base itself are refused or the remote's business.
func onBase(o Op) bool {
	switch o.Kind {
	case "remove", "removeall", "rename", "readlink":
		return path.Clean(o.A) == "." || o.Kind == "rename" && path.Clean(o.B) == "."
	}
	return false
}

// below tells that p is the base or a clean path under it.
func (r *remote) below(p string) bool {
	return p == r.base || strings.HasPrefix(p, r.base+"/") && path.Clean(p) == p
}

// checkWire fails when a request named something outside the base.
func (r *remote) checkWire(c *core.C, o Op, failed bool) []request {
	log := r.w.take()
	for _, q := range log {
		for _, p := range q.Paths {
			if failed && o.Kind == "mkdirall" && strings.HasPrefix(r.base, p) {
				// Told that the base may not be there, it looks for the parents.
				continue
			}
			if !r.below(p) {
				c.Fail("path:"+o.Kind+":"+o.A, "%v sent %q to the server, whose base is %q", o, strings.ReplaceAll(q.String(), r.dir, "/X"), "/X/base")
			}
		}
	}
	return log
}

var outTrees = [][]string{
	{"a/", "a/x=one", "b=file", "l->a"},
	{"a/", "a/x->../..", "b/", "b/y=2", "l->.."},
	{"a/", "a/x->../../d", "b->../secret", "l->../d"},
	{"a->../base", "b/", "b/x->../../basement", "l->../nope"},
}

// sftpOut: requests stay at or below the base, and the whole remote, links out
// of the base included, changes as a directory would.
func sftpOut(posix bool, ops []Op, depth int) func(c *core.C) {
	return func(c *core.C) {
		tree := outTrees[c.Choose(len(outTrees))]
		r := newRemote(posix, tree)
		defer r.end()
		s := r.sys()
		c.Logf("base with %v", tree)
		for i := 0; i < depth; i++ {
			o := ops[c.Choose(len(ops))]
			if o.Kind == "openroot" || o.Kind == "removeall" && strings.HasSuffix(o.A, "/.") {
				c.Prune()
			}
			p, in := inBase(o)
			if in && (onBase(o) || kitOsFs.skip(r.ref, p)) {
				// Links around the whole remote, or the base's own entry.
				c.Prune()
			}
			c.Step()
			r.w.take()
			got := apply(s, o, false)
			c.Logf("%v: %s", o, got)
			log := r.checkWire(c, o, false)
			if !in {
				if got != "escape" || len(log) != 0 {
					c.Fail("escape:"+o.Kind+":"+o.A+":"+o.B, "%v gives %q after %d requests, want ErrPathEscapes and none", o, got, len(log))
				}
				continue
			}
			want := apply(ofRef(r.ref), p, false)
			if !same(s, o, want, got) {
				c.Fail("result:"+o.String(), "%v gives %q, a directory gives %q\nhistory: %s", o, got, want, c.History())
			}
			if !c.Fresh() {
				continue
			}
			if w, g := dump(ofRef(r.ref), false), dump(r.all, false); w != g {
				c.Fail("tree:"+o.String(), "after %v the remote is\n%s\nwant\n%s\nhistory: %s", o, g, w, c.History())
			}
		}
	}
}

// flat lists a tree as path -> what is there, modes apart.
func flat(s Sys) map[string]string {
	out := map[string]string{}
	var walk func(p string)
	walk = func(p string) {
		fi, err := s.Lstat(p)
		switch {
		case err != nil:
			out[p] = "lstat " + class(err, false)
		case fi.IsDir():
			out[p] = "dir"
			f, err := s.Open(p)
			if err != nil {
				out[p] = "dir " + class(err, false)
				return
			}
			ns, _ := f.Readdirnames(-1)
			_ = f.Close()
			for _, n := range ns {
				walk(path.Join(p, n))
			}
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := s.ReadLink(p)
			out[p] = "-> " + t
		default:
			out[p] = apply(s, Op{Kind: "read", A: p}, false)
		}
	}
	walk(".")
	return out
}

// onTheWay tells how got is not a state on the way from a to b.
func onTheWay(a, b, got map[string]string) string {
	for p, v := range got {
		va, ina := a[p]
		vb, inb := b[p]
		switch {
		case !ina && !inb:
			return p + " appeared"
		case ina && v == va || inb && v == vb:
		case strings.HasPrefix(v, "read ") && (inb && strings.HasPrefix(vb, v) || v == "read "):
			// Created or truncated, not (all) written.
			if ina && inb && va == vb {
				return p + " changed"
			}
		default:
			return p + " is " + v
		}
	}
	var missing []string
	for p, v := range a {
		if b[p] == v {
			if _, ok := got[p]; !ok {
				missing = append(missing, p)
			}
		}
	}
	sort.Strings(missing)
	if len(missing) > 0 {
		return missing[0] + " is gone"
	}
	return ""
}

func faultOps() []Op {
	ops := []Op{
		{Kind: "open", A: "b", Flag: os.O_RDWR | os.O_APPEND, Data: "ap"},
		{Kind: "open", A: "n", Flag: os.O_WRONLY | os.O_CREATE | os.O_APPEND, Mode: 0o600, Data: "ap"},
		{Kind: "copyout", A: "a/x"}, {Kind: "copyout", A: "b"},
		{Kind: "copyin", A: "b", Flag: os.O_RDWR | os.O_APPEND, Data: "ci"}, {Kind: "copyin", A: "n", Flag: os.O_WRONLY | os.O_CREATE | os.O_TRUNC, Mode: 0o600, Data: "ci"},
		{Kind: "readfile", A: "a/x"}, {Kind: "read", A: "a/x"}, {Kind: "readfile", A: "b"},
		{Kind: "readdir", A: "."}, {Kind: "readdir", A: "a"}, {Kind: "readdir", A: "l"}, {Kind: "listdir", A: "."}, {Kind: "listdir", A: "a"},
		{Kind: "stat", A: "a/x"}, {Kind: "stat", A: "l"}, {Kind: "lstat", A: "l"}, {Kind: "lstat", A: "."}, {Kind: "readlink", A: "l"},
		{Kind: "removeall", A: "b"}, {Kind: "removeall", A: "nope"}, {Kind: "removeall", A: "a/x/y"},
		{Kind: "remove", A: "a/v"}, {Kind: "removeall", A: "a/v"}, {Kind: "removeall", A: "a/w"}, {Kind: "removeall", A: "l"},
		{Kind: "mkdirall", A: "m/n/o", Mode: 0o700}, {Kind: "mkdirall", A: "a", Mode: 0o700},
		{Kind: "chtimes", A: "a"}, {Kind: "chown", A: "a"}, {Kind: "lchown", A: "l"},
	}
	return append(ops, mutators()...)
}

// sftpFaults: one request of one call fails; the caller is told, unless the call
// did all it was to do, and nothing but what it was about has changed.
func sftpFaults(posix bool, ops []Op, trees [][]string) func(c *core.C) {
	return func(c *core.C) {
		tree := trees[c.Choose(len(trees))]
		o := ops[c.Choose(len(ops))]
		kind := 1 + c.Choose(len(faultNames)-1)
		span := 1
		if kind == faultRefuse || kind == faultDeny {
			// Some calls try twice before they give up.
			span += c.Choose(2)
		}
		at := c.Choose(24)
		r := newRemote(posix, tree)
		defer r.end()
		p, _ := inBase(o)
		if kitOsFs.skip(r.ref, p) {
			c.Prune()
		}
		s := r.sys()
		before := flat(ofRef(r.ref))
		want := apply(ofRef(r.ref), p, false)
		after := flat(ofRef(r.ref))
		full := dump(ofRef(r.ref), false)
		r.w.take()
		r.w.arm(at, kind, span)
		c.Logf("%v in base with %v, %s at request %d (%d)", o, tree, faultNames[kind], at, span)
		c.Step()
		got := limited(c, o, func() string { return apply(s, o, true) })
		r.w.mu.Lock()
		fired, open := r.w.fired, r.w.open
		r.w.mu.Unlock()
		r.w.arm(0, faultNone, 0)
		r.checkWire(c, o, len(fired) > 0)
		if len(fired) < span {
			c.Prune()
		}
		closing, soft := false, true
		for _, f := range fired {
			c.Logf("%v failed", strings.ReplaceAll(f.String(), r.dir, ""))
			closing = closing || f.Type == 4
			soft = soft && strings.Contains("stat setstat fsetstat lstat mkdir", strings.Fields(f.String())[0])
		}
		c.Logf("%s", got)
		key := fmt.Sprintf("%v:%s:%d", o, faultNames[kind], at)
		if span > 1 {
			key += "+"
		}
		now := flat(r.all)
		if why := onTheWay(before, after, now); why != "" {
			c.Fail("changed:"+key, "%s: %s", c.History(), why)
		}
		// MkdirAll goes by what mkdir says when it may not look.
		if kind == faultDeny && o.Kind != "mkdirall" && bad(got) && !bad(want) && !strings.HasSuffix(got, syscall.EACCES.Error()) {
			c.Fail("denied:"+key, "%s: the server denied a request, the caller gets %q", c.History(), got)
		}
		// A result that owns up to nothing has to be the real one. Whether a
		// handle could be closed on the server is not part of it.
		if !bad(got) && !closing {
			if got != want && !(failed(want) && failed(got)) {
				c.Fail("result:"+key, "%s: want %q or a failure", c.History(), want)
			}
			d := dump(r.all, false)
			if d != full && (!soft || onTheWay(after, after, now) != "") {
				c.Fail("silent:"+key, "%s: the remote is\n%s\nwant\n%s", c.History(), d, full)
			}
		}
		if kind == faultCut || kind == faultCutLate {
			for _, again := range []Op{{Kind: "stat", A: "b"}, {Kind: "readdir", A: "."}, {Kind: "removeall", A: "a"}, {Kind: "mkdirall", A: "z/z", Mode: 0o755}, {Kind: "create", A: "z", Data: "z"}} {
				if got := limited(c, again, func() string { return apply(s, again, false) }); !bad(got) {
					c.Fail("cut:"+again.Kind+":"+key, "%s: without a connection %v gives %q", c.History(), again, got)
				}
			}
			return
		}
		if open != 0 && !closing {
			c.Fail("leak:"+key, "%s: %d handles stay open on the server", c.History(), open)
		}
		// The connection is as good as before.
		if a, b := flat(s), flatUnder(now, "base"); fmt.Sprint(a) != fmt.Sprint(b) {
			c.Fail("after:"+key, "%s: the adapter then shows %v, the remote is %v", c.History(), a, b)
		}
	}
}

func flatUnder(m map[string]string, dir string) map[string]string {
	out := map[string]string{}
	for p, v := range m {
		if p == dir {
			out["."] = v
		} else if q, ok := strings.CutPrefix(p, dir+"/"); ok {
			out[q] = v
		}
	}
	return out
}

// limited runs f, failing when it does not come back.
func limited(c *core.C, o Op, f func() string) string {
	ch := make(chan string, 1)
	go func() { ch <- f() }()
	select {
	case s := <-ch:
		return s
	case <-time.After(20 * time.Second):
		c.Fail("hang:"+o.Kind, "%s: %v does not return", c.History(), o)
		panic(errors.New("unreachable"))
	}
}

func init() {
	core.Register(&core.Property{
		ID: "P01", Unpriv: true,
		Init: func() error { syscall.Umask(0); return nil },
		Rule: "every call of every sequence on an sftp-backed tree has the result, and leaves the remote tree, a plain directory has",
		Assumptions: []string{
			"the server is pkg/sftp's own, in the same process, acting on a real directory",
			"umask 0, one user; ownership is not compared",
			"a handle's listing goes by the name it was opened by (documented)",
		},
		Scenarios: func(th bool) (out []core.Scenario) {
			ops, odd := mutators(), oddOps()
			seq := func(tag string, k kit, trees [][]string, ops []Op, depth int, dedup bool) {
				out = append(out, core.Scenario{
					Name:  tag + ": " + k.name,
					Bound: bound(len(trees), len(ops), depth, dedup),
					Body:  sequences(k, trees, ops, depth, dedup),
				})
			}
			for _, posix := range []bool{false, true} {
				seq("odd paths", kitSftp(posix), startTrees, odd, 1, false)
				seq("sequences", kitSftp(posix), startTrees, ops, 2, false)
				seq("open flags", kitSftp(posix), startTrees[1:], flagOps(), 1, false)
			}
			d1, d2 := 4, 3
			if th {
				d1, d2 = 5, 4
			}
			one, two := fileHandleOps(1, th), fileHandleOps(2, th)
			k := kitSftp(true)
			out = append(out,
				core.Scenario{Name: "one handle: " + k.name, Bound: bound(1, len(one), d1, true), Body: handleBody(k, one, d1)},
				core.Scenario{Name: "two handles: " + k.name, Bound: bound(1, len(two), d2, true), Body: handleBody(k, two, d2)},
				core.Scenario{Name: "paging", Bound: "directories of 0-3 entries, every sequence of 4 page reads (3 methods, 3 page sizes) and rewinds", Body: paging("sftpfs")},
			)
			if th {
				seq("deep", k, startTrees, ops, 3, true)
			}
			return out
		},
	})
	core.Register(&core.Property{
		ID: "P02", Unpriv: true,
		Init: func() error { syscall.Umask(0); return nil },
		Rule: "no request names anything but the base or a clean path below it (MkdirAll, told the base is missing, its parents); paths leading above it are refused without a request; when one request of a call fails, is denied, acts but answers failure, or takes the connection along, the call fails or has done everything, nothing else changed, nothing stays open on the server, and every later call returns",
		Assumptions: []string{
			"the server is pkg/sftp's own, in the same process, acting on a real directory; links on it are followed wherever they lead (the adapter is not a sandbox)",
			"setting a new file's mode is best-effort (documented), as is closing a handle after reading",
		},
		Scenarios: func(th bool) (out []core.Scenario) {
			odd := oddOps()
			for _, p := range []string{"../base", "../base/a", "../basement", "a/../../base/b", "../../etc", "...", "..a", "/", "//", "a/../..", "./../secret"} {
				for _, k := range []string{"mkdir", "mkdirall", "create", "read", "readfile", "readdir", "listdir", "stat", "lstat", "readlink", "remove", "removeall", "chmod", "chtimes", "chown", "lchown"} {
					odd = append(odd, Op{Kind: k, A: p, Mode: 0o755, Data: "z"})
				}
				odd = append(odd, Op{Kind: "symlink", A: p, B: "a"}, Op{Kind: "rename", A: p, B: "n"}, Op{Kind: "rename", A: "b", B: p}, Op{Kind: "link", A: "b", B: p}, Op{Kind: "link", A: p, B: "n"})
			}
			for _, posix := range []bool{false, true} {
				tag := fmt.Sprintf(" posix-rename=%v", posix)
				out = append(out,
					core.Scenario{Name: "paths" + tag, Bound: bound(len(outTrees), len(odd), 1, false), Body: sftpOut(posix, odd, 1)},
					core.Scenario{Name: "faults" + tag, Bound: fmt.Sprintf("%d calls on %d trees, 5 faults at each of the first 24 requests", len(faultOps()), len(startTrees)+1), Body: sftpFaults(posix, faultOps(), append([][]string{deepTree}, startTrees...))},
				)
			}
			out = append(out, core.Scenario{Name: "links leading out", Bound: bound(len(outTrees), len(mutators()), 2, false), Body: sftpOut(true, mutators(), 2)})
			return out
		},
	})
}

var deepTree = []string{"a/", "a/x/", "a/x/y=1", "a/x/z/", "a/w->../b", "a/v->nope", "b=file", "l->a"}
