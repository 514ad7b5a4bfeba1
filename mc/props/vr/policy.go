package vr

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// ownPolicy is a caller's copy-up policy. It checks that it is called as the
// contract says, and copies straight into place, by the default policy, or not
// at all.
type ownPolicy struct {
	r      *ovlRun
	how    string
	calls  []string
	inside bool
	def    *overlayfs.CopyUpPolicyWork
}

var errPolicy = errors.New("the policy fails")

func (p *ownPolicy) CopyUp(from vroot.Fs[vroot.File], top *overlayfs.DataSource, name string) error {
	c := p.r.c
	p.calls = append(p.calls, name)
	bad := func(format string, a ...any) {
		c.Fail("policy", "copying up %q over %s: %s\nhistory: %s", name, p.r.name, fmt.Sprintf(format, a...), c.History())
	}
	if name == "" || name == "." || path.Clean(name) != name || strings.HasPrefix(name, "/") || strings.HasPrefix(name, "..") {
		bad("not a name of the view")
	}
	if _, err := top.Fsys().Lstat(top.ContentPath(name)); !errors.Is(err, fs.ErrNotExist) {
		bad("the top holds it already (%v)", err)
	}
	if q := top.ContentPath(name); q != filepath.Join("merged", name) || top.StagingPath("x") != filepath.Join("work", "x") {
		bad("its places in the top are %q and %q", q, top.StagingPath("x"))
	}
	fi, err := from.Lstat(name)
	if err != nil {
		bad("the source does not hold it: %v", err)
	}
	// What is copied is what the view shows.
	n := reffs.Lookup(p.r.before, name, false)
	switch {
	case n == nil:
		bad("the view does not show it")
	case n.Mode.Type() != fi.Mode().Type():
		bad("the source has a %v, the view a %v", fi.Mode(), n.Mode)
	case n.Mode.IsRegular():
		b, err := vroot.ReadFile(from, name)
		if err != nil || string(b) != string(n.Data) {
			bad("the source has %q (%v), the view %q", b, err, n.Data)
		}
	}
	switch p.how {
	case "fails":
		return errPolicy
	case "default":
		return p.def.CopyUp(from, top, name)
	}
	dst := top.ContentPath(name)
	f := top.Fsys()
	// Parents the top lacks are ordinary directories.
	for d := range parents(name) {
		if _, err := f.Lstat(top.ContentPath(d)); err == nil {
			continue
		}
		if err := f.Mkdir(top.ContentPath(d), 0o755); err != nil {
			return err
		}
	}
	switch {
	case fi.IsDir():
		err = f.Mkdir(dst, fi.Mode().Perm())
	case fi.Mode()&fs.ModeSymlink != 0:
		var t string
		if t, err = from.ReadLink(name); err == nil {
			err = f.Symlink(t, dst)
		}
		return err
	default:
		var b []byte
		if b, err = vroot.ReadFile(from, name); err == nil {
			var w vroot.File
			if w, err = f.OpenFile(dst, os.O_WRONLY|os.O_CREATE|os.O_EXCL, fi.Mode().Perm()); err == nil {
				_, err = w.Write(b)
				err = errors.Join(err, w.Close())
			}
		}
	}
	if err != nil {
		return err
	}
	if err := f.Chmod(dst, fi.Mode().Perm()); err != nil {
		return err
	}
	return f.Chtimes(dst, fi.ModTime(), fi.ModTime())
}

func parents(name string) func(yield func(string) bool) {
	return func(yield func(string) bool) {
		for i, ch := range name {
			if ch == '/' && !yield(name[:i]) {
				return
			}
		}
	}
}

// policies runs every sequence of ops on overlays with a policy of the caller's.
func policies(specs []ovlSpec, ops []Op, depth int) func(c *core.C) {
	return func(c *core.C) {
		r := newOvlRun(c, specs[c.Choose(len(specs))])
		p := &ownPolicy{r: r, how: core.Pick(c, "in place", "default", "fails"), def: overlayfs.NewCopyUpPolicyWork()}
		r.s = r.st.sys(&overlayfs.Option{CopyUpPolicy: p})
		c.Logf("%s, policy: %s", r.name, p.how)
		for i := range depth {
			o := ops[c.Choose(len(ops))]
			if r.skip(cleaned(r.s, o)) || o.Kind == "chown" || o.Kind == "lchown" {
				c.Prune()
			}
			p.calls, r.before = nil, r.ref.Clone()
			if p.how != "fails" {
				r.step(o)
			} else {
				c.Step()
				pure := map[*reffs.Node]bool{}
				for k, v := range r.pure {
					pure[k] = v
				}
				got := apply(r.s, o, false)
				c.Logf("%v: %s", o, got)
				if len(p.calls) > 0 {
					if !failed(got) {
						c.Fail("policy-swallowed", "%v over %s gives %q though copying up %q failed\nhistory: %s", o, r.name, got, p.calls, c.History())
					}
					if len(p.calls) > 1 {
						c.Fail("policy-goes-on", "%v over %s goes on after copying up %q failed\nhistory: %s", o, r.name, p.calls[0], c.History())
					}
				} else if want := r.want(cleaned(r.s, o)); !same(r.s, o, want, got) {
					c.Fail("result:"+o.String(), "%v over %s gives %q, one file system gives %q\nhistory: %s", o, r.name, got, want, c.History())
				}
				if c.Fresh() {
					r.compare(o.String())
				}
			}
			seen := map[string]bool{}
			for _, n := range p.calls {
				if seen[n] {
					c.Fail("policy-twice", "%v over %s copies %q up twice\nhistory: %s", o, r.name, n, c.History())
				}
				seen[n] = true
			}
			if c.Fresh() && !c.Visit(p.how+r.name+r.st.String()+r.state(), depth-i-1) {
				return
			}
		}
	}
}
