package fsu

import (
	"errors"
	"fmt"
	"io/fs"
	"iter"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/fsutil/pathutil"
	"verif.local/mc/core"
)

// prefixes of the cleaned path, outermost first.
func prefixes(name string) []string {
	name = filepath.Clean(name)
	var out []string
	if strings.HasPrefix(name, "/") {
		out, name = append(out, "/"), name[1:]
	}
	cur := ""
	if len(out) > 0 {
		cur = "/"
	}
	for _, part := range strings.Split(name, "/") {
		if part == "" {
			continue
		}
		if cur != "" && !strings.HasSuffix(cur, "/") {
			cur += "/"
		}
		cur += part
		out = append(out, cur)
	}
	return out
}

func ancestors(n int) func(c *core.C) {
	return func(c *core.C) {
		name := ""
		for range n {
			u := core.Pick(c, "", "/", ".", "a", "bc", "é")
			if u == "" {
				break
			}
			name += u
		}
		want := prefixes(name)
		for _, tail := range []bool{false, true} {
			seq, which := pathutil.PathFromHead(name), "PathFromHead"
			if tail {
				seq, which = pathutil.PathFromTail(name), "PathFromTail"
				want = slices.Clone(want)
				slices.Reverse(want)
			}
			for stop := 1; stop <= len(want)+1; stop++ {
				c.Step()
				got := take(seq, stop)
				if !slices.Equal(got, want[:min(stop, len(want))]) {
					c.Fail("ancestors:"+which, "%s(%q) gives %q to a consumer that takes %d, want %q", which, name, got, stop, want[:min(stop, len(want))])
				}
			}
			// an iterator can be run again and gives the same
			if got := slices.Collect(seq); !slices.Equal(got, want) {
				c.Fail("again:"+which, "%s(%q) run once more gives %q, want %q", which, name, got, want)
			}
		}
		c.Distinct(fmt.Sprint(want))
	}
}

func take(seq iter.Seq[string], n int) (out []string) {
	for p := range seq {
		out = append(out, p)
		if len(out) == n || len(out) > 100 {
			break
		}
	}
	return out
}

// modeBits are all bits fs.FileMode names besides the permissions.
var modeBits = []fs.FileMode{
	fs.ModeDir, fs.ModeAppend, fs.ModeExclusive, fs.ModeTemporary, fs.ModeSymlink, fs.ModeDevice, fs.ModeNamedPipe,
	fs.ModeSocket, fs.ModeSetuid, fs.ModeSetgid, fs.ModeCharDevice, fs.ModeSticky, fs.ModeIrregular,
}

func chmodMasks(c *core.C) {
	mode := fs.FileMode(c.Choose(8)<<6 | c.Choose(8)<<3 | c.Choose(8))
	rest := c.Choose(1 << len(modeBits))
	for i, b := range modeBits {
		if rest&(1<<i) != 0 {
			mode |= b
		}
	}
	c.Step()
	keep := func(bits ...fs.FileMode) (m fs.FileMode) {
		m = mode & 0o777
		for _, b := range bits {
			m |= mode & b
		}
		return m
	}
	unix := keep(fs.ModeSetuid, fs.ModeSetgid, fs.ModeSticky)
	if got := fsutil.MaskChmodModeUnix(mode); got != unix {
		c.Fail("mask-unix", "MaskChmodModeUnix(%v)=%v want %v", mode, got, unix)
	}
	if got := fsutil.MaskChmodMode(mode); got != unix {
		c.Fail("mask", "MaskChmodMode(%v)=%v want %v", mode, got, unix)
	}
	if got, want := fsutil.MaskChmodModePlan9(mode), keep(fs.ModeAppend, fs.ModeExclusive, fs.ModeTemporary); got != want {
		c.Fail("mask-plan9", "MaskChmodModePlan9(%v)=%v want %v", mode, got, want)
	}
	perm := fs.FileMode(0o444)
	switch w := mode&0o200 != 0; {
	case mode.IsDir() && w:
		perm = 0o777
	case mode.IsDir():
		perm = 0o555
	case w:
		perm = 0o666
	}
	if got := fsutil.MaskChmodModeWindows(mode); got.Perm() != perm || got.Type() != mode.Type() {
		c.Fail("mask-windows", "MaskChmodModeWindows(%v)=%v want permission %v", mode, got, perm)
	}
}

var errLeaf = errors.New("leaf")

// wrapping: nil stays nil, the cause stays reachable, given fields are set and the others kept.
func wrapping(c *core.C) {
	link := c.Bool()
	op, a, b := core.Pick(c, "", "op"), core.Pick(c, "", "p"), core.Pick(c, "", "q")
	var in error
	inOp, inA, inB := "", "", ""
	kind := c.Choose(7)
	switch kind {
	case 0:
	case 1:
		in = errLeaf
	case 2:
		inOp, inA = core.Pick(c, "", "old"), core.Pick(c, "", "x")
		in = &fs.PathError{Op: inOp, Path: inA, Err: errLeaf}
	case 3:
		inOp, inA, inB = core.Pick(c, "", "old"), core.Pick(c, "", "x"), core.Pick(c, "", "y")
		in = &os.LinkError{Op: inOp, Old: inA, New: inB, Err: errLeaf}
	case 4:
		in = fmt.Errorf("around: %w", &fs.PathError{Op: "old", Path: "x", Err: errLeaf})
	case 5:
		in = fmt.Errorf("around: %w", &os.LinkError{Op: "old", Old: "x", New: "y", Err: errLeaf})
	case 6:
		in = errors.Join(errLeaf, fs.ErrExist)
	}
	c.Step()
	or := func(s, d string) string {
		if s != "" {
			return s
		}
		return d
	}
	var err error
	if link {
		err = fsutil.WrapLinkErr(op, a, b, in)
	} else {
		err = fsutil.WrapPathErr(op, a, in)
	}
	if in == nil {
		if err != nil {
			c.Fail("wrap-nil", "wrapping nil gives %v", err)
		}
		return
	}
	if !errors.Is(err, errLeaf) || kind == 6 && !errors.Is(err, fs.ErrExist) {
		c.Fail("wrap-cause", "%v wrapped as %v hides its cause", in, err)
	}
	if link {
		le, ok := err.(*os.LinkError)
		if !ok {
			c.Fail("wrap-type", "WrapLinkErr gives a %T", err)
		}
		wantOp, wantA, wantB := op, a, b
		if kind == 3 {
			wantOp, wantA, wantB = or(op, inOp), or(a, inA), or(b, inB)
		}
		if le.Op != wantOp || le.Old != wantA || le.New != wantB {
			c.Fail("wrap-link", "WrapLinkErr(%q,%q,%q) of %v gives %q %q %q, want %q %q %q", op, a, b, in, le.Op, le.Old, le.New, wantOp, wantA, wantB)
		}
		if _, twice := le.Err.(*os.LinkError); twice {
			c.Fail("wrap-twice", "%v is wrapped twice", in)
		}
		return
	}
	pe, ok := err.(*fs.PathError)
	if !ok {
		c.Fail("wrap-type", "WrapPathErr gives a %T", err)
	}
	wantOp, wantA := op, a
	if kind == 2 {
		wantOp, wantA = or(op, inOp), or(a, inA)
	}
	if pe.Op != wantOp || pe.Path != wantA {
		c.Fail("wrap-path", "WrapPathErr(%q,%q) of %v gives %q %q, want %q %q", op, a, in, pe.Op, pe.Path, wantOp, wantA)
	}
	if _, twice := pe.Err.(*fs.PathError); twice {
		c.Fail("wrap-twice", "%v is wrapped twice", in)
	}
}

func init() {
	core.Register(&core.Property{
		ID:   "F06",
		Rule: "every path of bounded length over six units and every consumer that stops; every file mode; every error shape and field given to the wrappers",
		Scenarios: func(th bool) []core.Scenario {
			n := 7
			if th {
				n = 9
			}
			return []core.Scenario{
				{Name: "ancestors", Bound: fmt.Sprintf("paths of up to %d of 5 units, consumers stopping anywhere", n), Body: ancestors(n)},
				{Name: "masks", Bound: "512 permissions x 8192 sets of the other bits", Body: chmodMasks},
				{Name: "wrapping", Bound: "7 shapes of error x the fields given and present", Body: wrapping},
			}
		},
	})
}
