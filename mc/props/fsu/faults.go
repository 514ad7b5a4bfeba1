// Package fsu checks the fsutil module.
package fsu

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"strings"

	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

var (
	errFault = errors.New("injected fault")
	errCrash = errors.New("crashed")
)

// injector turns a reference file system into a hostile environment: every
// operation may be refused, torn, or be the last one before a crash.
type injector struct {
	c       *core.C
	fs      *reffs.FS
	left    int  // faults left
	crash   bool // a crash may still be chosen
	lateOps string
	skip    func(op reffs.Op) bool // operations no fault is placed at
	always  func()                 // invariant evaluated at every operation
	crashed bool
	faults  []string
	paths   []string // of the faults
	ops     int
}

func (in *injector) install() {
	in.fs.Before = in.before
	in.fs.After = in.after
}

func (in *injector) remove() {
	in.fs.Before, in.fs.After, in.fs.Frozen = nil, nil, false
}

func (in *injector) before(op reffs.Op) (int, error) {
	in.ops++
	if in.ops > 400 {
		in.c.Fail("no-termination", "more than 400 file system operations")
	}
	if in.always != nil {
		in.always()
	}
	if in.skip != nil && in.skip(op) {
		return 0, nil
	}
	wr := op.Name == "f.write" || op.Name == "f.writeat"
	// 0: fine; 1: refused; 2: crash; then for writes torn variants of both
	type alt struct {
		torn  int
		crash bool
	}
	var alts []alt
	if in.left > 0 {
		alts = append(alts, alt{0, false})
		if wr && op.N > 1 {
			alts = append(alts, alt{op.N / 2, false})
		}
	}
	if in.crash {
		alts = append(alts, alt{0, true})
		if wr && op.N > 1 {
			alts = append(alts, alt{op.N / 2, true})
		}
	}
	k := in.c.Choose(len(alts) + 1)
	if k == 0 {
		return 0, nil
	}
	a := alts[k-1]
	in.c.Logf("%s(%s) torn=%d crash=%v", op.Name, op.Path, a.torn, a.crash)
	if a.crash {
		in.crashed, in.crash = true, false
		in.fs.Frozen = true
		return a.torn, errCrash
	}
	in.left--
	in.faults = append(in.faults, op.Name)
	in.paths = append(in.paths, op.Path)
	return a.torn, errFault
}

func (in *injector) after(op reffs.Op) error {
	if in.always != nil {
		in.always()
	}
	if in.left > 0 && strings.Contains(in.lateOps, op.Name+";") && in.c.Bool() {
		in.left--
		in.faults = append(in.faults, "late "+op.Name)
		in.c.Logf("%s(%s) took effect but reported failure", op.Name, op.Path)
		return errFault
	}
	return nil
}

// dumpMap flattens a tree: path -> description.
func dumpMap(f *reffs.FS) map[string]string {
	out := map[string]string{}
	var walk func(n *reffs.Node, p string)
	walk = func(n *reffs.Node, p string) {
		switch {
		case n.Mode.IsDir():
			if p != "" {
				out[p] = "dir " + n.Mode.String()
			}
			for _, k := range reffs.Names(n) {
				walk(n.Kids[k], strings.TrimPrefix(p+"/"+k, "/"))
			}
		case n.Mode&fs.ModeSymlink != 0:
			out[p] = "link " + n.Target
		default:
			out[p] = "file " + n.Mode.String() + " " + string(n.Data)
		}
	}
	walk(f.Root, "")
	return out
}

// diff lists entries that differ, skipping paths ignore accepts.
func diff(a, b map[string]string, ignore func(p string) bool) string {
	var out []string
	for k, v := range a {
		if !ignore(k) && b[k] != v {
			out = append(out, fmt.Sprintf("%s: %q became %q", k, v, b[k]))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok && !ignore(k) {
			out = append(out, fmt.Sprintf("%s: %q appeared", k, v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// shortReader hands out its data in pieces and ends with err.
type shortReader struct {
	data string
	err  error
	both bool // the last bytes come with the error
	step int
}

func (r *shortReader) Read(p []byte) (int, error) {
	if r.data == "" {
		return 0, r.err
	}
	n := min(len(p), r.step, len(r.data))
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.data == "" && r.both {
		return n, r.err
	}
	return n, nil
}

var _ io.Reader = (*shortReader)(nil)
var _ vroot.File = (*reffs.File)(nil)
