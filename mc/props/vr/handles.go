package vr

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"

	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// V06: open handles against the reference file system, whose own handles are
// compared with the kernel's by the osfs scenarios.

// hop is one call in a history with handles: on handle slot h, or, with a
// Path.Kind, on the file system.
type hop struct {
	h    int
	kind string
	n    int
	off  int64
	flag int
	path Op
}

func (o hop) String() string {
	if o.path.Kind != "" {
		return o.path.String()
	}
	s := fmt.Sprintf("h%d.%s", o.h, o.kind)
	switch o.kind {
	case "open":
		return fmt.Sprintf("h%d=open(%s,%s)", o.h, o.path.A, flagString(o.flag))
	case "read", "readdir", "names", "write", "writestring", "copyin", "copycut":
		return fmt.Sprintf("%s(%d)", s, o.n)
	case "readat", "writeat":
		return fmt.Sprintf("%s(%d@%d)", s, o.n, o.off)
	case "seek":
		return fmt.Sprintf("%s(%d,%d)", s, o.off, o.n)
	case "truncate":
		return fmt.Sprintf("%s(%d)", s, o.off)
	}
	return s + "()"
}

var errReader = errors.New("the reader fails")

// shortReader hands out data and then err.
type shortReader struct {
	data string
	err  error
}

func (r *shortReader) Read(b []byte) (int, error) {
	if r.data == "" {
		return 0, r.err
	}
	n := copy(b[:min(len(b), 2)], r.data)
	r.data = r.data[n:]
	return n, nil
}

const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

// slot is one handle, on both sides.
type slot struct {
	got, ref vroot.File
	node     *reffs.Node
	flag     int
	name     string
	log      string     // for directories: what was read so far
	lower    bool       // overlay: opened for reading while in a lower layer
	old      vroot.File // on the reference as it was then
	closed   bool
}

// hsys is a system under test with its reference.
type hsys struct {
	c     *core.C
	s     Sys
	ref   *reffs.FS
	slots [2]*slot
	seq   int
	skip  func(ref *reffs.FS, o Op) bool
	kit   kit
	// linked files have or had two names: whether these share metadata is the
	// implementation's business.
	linked map[*reffs.Node]bool
	// Files shown by a read-only view, and the calls that need not work there.
	ro   map[*reffs.Node]bool
	cant string
	// fault, if set, tells which call of a view failed during the last step.
	fault func() string
}

// mayNot tells a call that what a read-only view reads from has no means for.
func (h *hsys) mayNot(sl *slot, o hop) bool {
	return h.ro[sl.node] && !sl.closed && strings.Contains(h.cant, o.kind) && o.kind != "read"
}

// refused tells that a call of a view failed during a step, which must then
// have failed too, and have changed nothing.
func (h *hsys) refused(o hop, got string) bool {
	if h.fault == nil {
		return false
	}
	f := h.fault()
	switch f {
	case "", "closeview", "close":
		return false
	}
	if !bad(got) {
		h.c.Fail("fault:"+f+":"+o.kind+o.path.Kind, "%v on %s gives %q, though the view's %s failed\nhistory: %s", o, h.s.Label, got, f, h.c.History())
	}
	return true
}

// closeFault tells that closing failed below, which may or may not be told.
func (h *hsys) closeFault() bool { return h.fault != nil && h.fault() != "" }

// frozen tells a call that a read-only view must refuse.
func (h *hsys) frozen(name string, flag int) bool {
	n := reffs.Lookup(h.ref, name, true)
	return n != nil && h.ro[n] && flag&(os.O_WRONLY|os.O_RDWR|os.O_APPEND|os.O_TRUNC) != 0 && flag&os.O_EXCL == 0
}

func fileResult(f vroot.File, o hop, data string) string {
	cl := func(err error) string { return class(err, false) }
	sum := func(n int, err error) string { return fmt.Sprintf("%d %s", n, cl(err)) }
	switch o.kind {
	case "read":
		b := make([]byte, o.n)
		n, err := f.Read(b)
		return fmt.Sprintf("%q %s", b[:max(n, 0)], cl(err))
	case "readat":
		b := make([]byte, o.n)
		n, err := f.ReadAt(b, o.off)
		if err != nil && err != io.EOF {
			return cl(err)
		}
		return fmt.Sprintf("%q %s", b[:max(n, 0)], cl(err))
	case "write":
		return sum(f.Write([]byte(data)))
	case "writestring":
		return sum(f.WriteString(data))
	case "writeat":
		return sum(f.WriteAt([]byte(data), o.off))
	case "copyin", "copycut":
		// As io.Copy finds best, from a reader that ends or fails.
		r := &shortReader{data: data, err: io.EOF}
		if o.kind == "copycut" {
			r.err = errReader
		}
		n, err := io.Copy(f, r)
		return sum(int(n), err)
	case "copyout":
		var b bytes.Buffer
		n, err := io.Copy(struct{ io.Writer }{&b}, f)
		if n != int64(b.Len()) {
			return fmt.Sprintf("%d bytes told, %q", n, b.String())
		}
		return fmt.Sprintf("%q %s", b.String(), cl(err))
	case "seek":
		n, err := f.Seek(o.off, o.n)
		if err != nil {
			return cl(err)
		}
		return fmt.Sprint("at ", n)
	case "dirseek":
		_, err := f.Seek(0, io.SeekStart)
		return cl(err)
	case "truncate":
		return cl(f.Truncate(o.off))
	case "sync":
		return cl(f.Sync())
	case "chmod":
		return cl(f.Chmod(0o700))
	case "close":
		return cl(f.Close())
	case "stat":
		fi, err := f.Stat()
		if err != nil {
			return cl(err)
		}
		return describe(fi)
	case "readdir":
		es, err := f.ReadDir(o.n)
		var out []string
		for _, e := range es {
			out = append(out, e.Name()+":"+e.Type().String())
		}
		if o.n <= 0 {
			sort.Strings(out)
		}
		return strings.Join(out, " ") + " " + cl(err)
	case "names":
		out, err := f.Readdirnames(o.n)
		if o.n <= 0 {
			sort.Strings(out)
		}
		return strings.Join(out, " ") + " " + cl(err)
	case "infos":
		es, err := f.Readdir(-1)
		var out []string
		for _, e := range es {
			out = append(out, e.Name()+" "+describe(e))
		}
		sort.Strings(out)
		return strings.Join(out, ", ") + " " + cl(err)
	}
	panic(o.kind)
}

// data is what the i-th call of a history writes.
func (h *hsys) data(n int) string {
	i := h.seq * 3 % (len(letters) - 4)
	return letters[i : i+n]
}

// step runs o on both sides and compares. It returns false when o is not
// possible here.
func (h *hsys) step(o hop) bool {
	c := h.c
	h.seq++
	if o.path.Kind != "" && o.kind == "" {
		p := o.path
		if h.skip != nil && h.skip(h.ref, p) {
			return false
		}
		if n := reffs.Lookup(h.ref, p.A, true); n != nil && p.Kind == "link" {
			h.linked[n] = true
		} else if p.Kind == "chmod" && h.linked[n] {
			return false
		}
		if p.Data != "" {
			p.Data = h.data(len(p.Data))
		}
		c.Step()
		if p.Kind == "create" && h.frozen(p.A, os.O_WRONLY) {
			got := apply(h.s, p, false)
			c.Logf("%v: %s", p, got)
			if !failed(got) {
				c.Fail("write:create", "%v on %s gives %q: the file is a read-only view\nhistory: %s", p, h.s.Label, got, c.History())
			}
			return true
		}
		got := apply(h.s, p, false)
		c.Logf("%v: %s", p, got)
		if h.refused(hop{path: p}, got) {
			return true
		}
		want := apply(ofRef(h.ref), p, false)
		if got != want && !(failed(got) && failed(want)) && !h.closeFault() {
			c.Fail("path:"+p.String(), "%v on %s gives %q, want %q\nhistory: %s", p, h.s.Label, got, want, c.History())
		}
		return true
	}
	sl := h.slots[o.h]
	if o.kind == "open" {
		if sl != nil && !sl.closed {
			return false
		}
		c.Step()
		if h.frozen(o.path.A, o.flag) {
			f, err := h.s.OpenFile(o.path.A, o.flag, 0o644)
			c.Logf("%v: %s", o, class(err, false))
			if err == nil {
				_ = f.Close()
				c.Fail("write:open"+flagString(o.flag), "%v on %s succeeds: the file is a read-only view\nhistory: %s", o, h.s.Label, c.History())
			}
			return true
		}
		gf, gerr := h.s.OpenFile(o.path.A, o.flag, 0o644)
		c.Logf("%v: %s", o, class(gerr, false))
		if h.refused(o, class(gerr, false)) {
			return true
		}
		rf, rerr := h.ref.OpenFile(o.path.A, o.flag, 0o644)
		if (rerr == nil) != (gerr == nil) || rerr != nil && class(rerr, false) != class(gerr, false) {
			c.Fail("open:"+o.path.A+flagString(o.flag), "%v on %s gives %v, want %v\nhistory: %s", o, h.s.Label, gerr, rerr, c.History())
		}
		if rerr != nil {
			return true
		}
		h.slots[o.h] = &slot{got: gf, ref: rf, node: reffs.Lookup(h.ref, o.path.A, true), flag: o.flag, name: o.path.A}
		return true
	}
	if sl == nil {
		return false
	}
	dir := sl.node.Mode.IsDir()
	switch o.kind {
	case "readdir", "names", "infos", "dirseek":
		if !dir && !sl.closed && o.n != 0 {
			return false
		}
		if !sl.closed && h.kit.byName && reffs.Lookup(h.ref, sl.name, true) != sl.node {
			return false
		}
		if dir && sl.log != "" && o.kind != "dirseek" && !sl.closed {
			// Going on after a page: V04's.
			return false
		}
	case "seek":
		if dir {
			return false
		}
	case "write":
		if o.n == 0 && sl.flag&os.O_APPEND != 0 {
			return false
		}
	case "chmod":
		// A directory that is gone need not take changes.
		if h.linked[sl.node] || dir && !h.attached(sl.node) {
			return false
		}
	}
	c.Step()
	data := ""
	if strings.HasPrefix(o.kind, "write") || o.kind == "copyin" || o.kind == "copycut" {
		data = h.data(o.n)
	}
	got := fileResult(sl.got, o, data)
	c.Logf("%v: %s", o, got)
	if h.refused(o, got) || h.mayNot(sl, o) && bad(got) {
		return true
	}
	want := fileResult(sl.ref, o, data)
	then := sl.then(o, data)
	if !h.sameResult(sl, o, want, got) && then != got && !h.closeFault() {
		c.Fail(fmt.Sprintf("%s:%s", o.kind, slotKind(sl)), "%v on %s gives %q, want %q\nhistory: %s", o, h.s.Label, got, want, c.History())
	}
	if o.kind == "close" {
		sl.closed = true
	}
	if dir {
		if o.kind == "dirseek" {
			sl.log = ""
		} else {
			sl.log += o.String()
		}
	}
	return true
}

func slotKind(sl *slot) string {
	switch {
	case sl.closed:
		return "closed"
	case sl.node.Mode.IsDir():
		return "dir"
	}
	return flagString(sl.flag)
}

// bad tells that a result is a failure, whatever came with it.
func bad(s string) bool {
	i := strings.LastIndexByte(s, ' ')
	return failed(s[i+1:]) || strings.Contains(s, "errno:")
}

// then is what o gives on the file as it was when opened.
func (sl *slot) then(o hop, data string) string {
	if sl.old == nil || sl.closed {
		return "-"
	}
	return fileResult(sl.old, o, data)
}

func (h *hsys) sameResult(sl *slot, o hop, want, got string) bool {
	if want == got || bad(want) && bad(got) {
		return true
	}
	if o.kind == "sync" && h.ro[sl.node] && !sl.closed {
		return true
	}
	if o.kind == "readat" && o.off < 0 && h.ro[sl.node] && !sl.closed {
		// Nothing is there, or nothing can be.
		return got == `"" EOF`
	}
	if sl.closed && o.kind == "close" {
		// Closing again may be allowed.
		return got == "ok"
	}
	switch o.kind {
	case "read", "readat", "write", "writeat":
		if o.n == 0 {
			// Nothing to do may succeed on any handle, or be refused; look tells
			// whether anything moved.
			return true
		}
	}
	if o.kind == "read" {
		// The end may come with the last bytes or after them.
		return strings.HasPrefix(got, `"`) && got != `"" EOF` && strings.TrimSuffix(got, " EOF")+" ok" == want && h.atEnd(sl)
	}
	dir := sl.node.Mode.IsDir()
	switch {
	case dir && o.kind == "sync" && !sl.closed:
		return true
	case dir && o.kind == "readdir" || dir && o.kind == "names" || dir && o.kind == "infos":
		if !h.attached(sl.node) {
			// A directory no longer there lists nothing, or says so.
			return bad(got) || strings.TrimSpace(strings.TrimSuffix(strings.TrimSuffix(got, "ok"), "EOF")) == ""
		}
		if o.n > 0 {
			// Paging order is free; V04 checks that pages add up.
			return strings.Count(want, " ") == strings.Count(got, " ") && strings.HasSuffix(want, "EOF") == strings.HasSuffix(got, "EOF")
		}
	}
	return false
}

// atEnd tells whether the reference's handle stands at the end of its file.
func (h *hsys) atEnd(sl *slot) bool {
	off, _ := sl.ref.Seek(0, io.SeekCurrent)
	return off == int64(len(sl.node.Data))
}

func (h *hsys) attached(n *reffs.Node) bool {
	found := false
	var walk func(x *reffs.Node)
	walk = func(x *reffs.Node) {
		found = found || x == n
		for _, k := range x.Kids {
			walk(k)
		}
	}
	walk(h.ref.Root)
	return found
}

// look compares everything that can be seen: the tree, and each handle.
func (h *hsys) look(tag string) {
	c := h.c
	if w, g := h.kit.views(h.ref, h.s); w != g {
		c.Fail("tree:"+tag, "after %s on %s the tree is\n%s\nwant\n%s\nhistory: %s", tag, h.s.Label, g, w, c.History())
	}
	for i, sl := range h.slots {
		if sl == nil || sl.closed {
			continue
		}
		ops := []hop{{h: i, kind: "stat"}}
		if !sl.node.Mode.IsDir() {
			ops = append(ops, hop{h: i, kind: "readat", n: 9, off: 0}, hop{h: i, kind: "seek", n: io.SeekCurrent})
		}
		for _, o := range ops {
			if h.mayNot(sl, o) {
				continue
			}
			w, g := fileResult(sl.ref, o, ""), fileResult(sl.got, o, "")
			if !h.sameResult(sl, o, w, g) && sl.then(o, "") != g {
				c.Fail("handle:"+tag+":"+o.kind, "after %s on %s, %v gives %q, want %q\nhistory: %s", tag, h.s.Label, o, g, w, c.History())
			}
		}
	}
}

// state renders everything the rest of a history depends on.
func (h *hsys) state() string {
	var b strings.Builder
	b.WriteString(h.ref.Dump())
	var links func(x *reffs.Node)
	links = func(x *reffs.Node) {
		for _, k := range reffs.Names(x) {
			if h.linked[x.Kids[k]] {
				b.WriteString("&" + k)
			}
			if h.ro[x.Kids[k]] {
				b.WriteString("!" + k)
			}
			links(x.Kids[k])
		}
	}
	links(h.ref.Root)
	for _, sl := range h.slots {
		switch {
		case sl == nil:
			b.WriteString("|-")
		case sl.closed:
			b.WriteString("|closed")
		default:
			off := int64(0)
			if !sl.node.Mode.IsDir() {
				off, _ = sl.ref.Seek(0, io.SeekCurrent)
			}
			fmt.Fprintf(&b, "|%v %v %d %d %o %q %s %v", h.linked[sl.node], h.ro[sl.node], sl.flag, off, sl.node.Mode, sl.node.Data, sl.log, sl.lower)
			if sl.old != nil {
				fmt.Fprintf(&b, " %q", fileResult(sl.old, hop{kind: "readat", n: 9}, ""))
			}
			// Which name, if any, the handle's file has.
			var walk func(x *reffs.Node, p string)
			walk = func(x *reffs.Node, p string) {
				if x == sl.node {
					b.WriteString(" " + p)
				}
				for _, k := range reffs.Names(x) {
					walk(x.Kids[k], path.Join(p, k))
				}
			}
			walk(h.ref.Root, ".")
		}
	}
	if h.slots[0] != nil && h.slots[1] != nil && h.slots[0].node == h.slots[1].node {
		b.WriteString("=")
	}
	return b.String()
}

func (h *hsys) closeAll() {
	for _, sl := range h.slots {
		if sl != nil && !sl.closed {
			_ = sl.got.Close()
		}
	}
}

func fileHandleOps(slots int, th bool) (out []hop) {
	for i := range slots {
		add := func(o ...hop) {
			for _, x := range o {
				x.h = i
				out = append(out, x)
			}
		}
		for _, f := range []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_RDWR | os.O_APPEND, os.O_WRONLY | os.O_TRUNC} {
			add(hop{kind: "open", flag: f, path: Op{A: "f"}})
		}
		add(hop{kind: "open", flag: os.O_RDWR | os.O_CREATE, path: Op{A: "n"}},
			hop{kind: "open", path: Op{A: "d"}},
			hop{kind: "read", n: 2}, hop{kind: "read", n: 0}, hop{kind: "read", n: 9},
			hop{kind: "readat", n: 2, off: 1}, hop{kind: "readat", n: 2, off: 9}, hop{kind: "readat", n: 1, off: -1}, hop{kind: "readat", n: 0, off: 9},
			hop{kind: "write", n: 2}, hop{kind: "write", n: 0}, hop{kind: "writestring", n: 1}, hop{kind: "copyin", n: 3}, hop{kind: "copycut", n: 2}, hop{kind: "copyout"},
			hop{kind: "writeat", n: 2, off: 0}, hop{kind: "writeat", n: 1, off: 5}, hop{kind: "writeat", n: 1, off: -1}, hop{kind: "writeat", n: 0, off: 9},
			hop{kind: "seek", off: 0, n: io.SeekStart}, hop{kind: "seek", off: 1, n: io.SeekStart}, hop{kind: "seek", off: 6, n: io.SeekStart},
			hop{kind: "seek", off: -1, n: io.SeekStart}, hop{kind: "seek", off: 1, n: io.SeekCurrent}, hop{kind: "seek", off: -1, n: io.SeekCurrent},
			hop{kind: "seek", off: 0, n: io.SeekEnd}, hop{kind: "seek", off: -1, n: io.SeekEnd}, hop{kind: "seek", off: -9, n: io.SeekEnd}, hop{kind: "seek", off: 0, n: 7},
			hop{kind: "truncate", off: 0}, hop{kind: "truncate", off: 1}, hop{kind: "truncate", off: 5}, hop{kind: "truncate", off: -1},
			hop{kind: "chmod"}, hop{kind: "sync"}, hop{kind: "close"}, hop{kind: "stat"},
			hop{kind: "readdir", n: -1}, hop{kind: "readdir", n: 1}, hop{kind: "names", n: 0}, hop{kind: "infos"}, hop{kind: "dirseek"},
		)
	}
	for _, p := range []Op{
		{Kind: "remove", A: "f"}, {Kind: "rename", A: "f", B: "n"}, {Kind: "rename", A: "n", B: "f"}, {Kind: "create", A: "f", Data: "z"},
		{Kind: "link", A: "f", B: "n"}, {Kind: "chmod", A: "f", Mode: 0o640},
		{Kind: "rename", A: "d", B: "n"}, {Kind: "removeall", A: "d"}, {Kind: "create", A: "d/k", Data: "k"}, {Kind: "mkdir", A: "d", Mode: 0o755},
	} {
		out = append(out, hop{path: p})
	}
	return out
}

var handleSeed = []string{"f=abc", "d/", "d/x=1", "d/y/"}

func handleKits() []kit { return []kit{kitSynth, kitSynthSub, kitPrefix, kitOsRoot, kitOsFs} }

func handleBody(mk kit, ops []hop, depth int) func(c *core.C) {
	return func(c *core.C) {
		s, done := mk.mk()
		defer done()
		ref := reffs.New()
		seed(s.Fs, handleSeed)
		seed(ref, handleSeed)
		h := &hsys{c: c, s: s, ref: ref, skip: mk.skip, kit: mk, linked: map[*reffs.Node]bool{}}
		defer h.closeAll()
		for i := range depth {
			o := ops[c.Choose(len(ops))]
			if i == 0 && o.kind != "open" || o.h == 1 && h.slots[0] == nil || !h.step(o) {
				c.Prune()
			}
			if !c.Fresh() {
				continue
			}
			h.look(o.String())
			if !c.Visit(h.state(), depth-i-1) {
				return
			}
		}
	}
}

func init() {
	core.Register(&core.Property{
		ID: "V06", Unpriv: true,
		Init: func() error { syscall.Umask(0); return nil },
		Rule: "each call on each open handle has the result a plain file's handle has, and moves nothing else; everything visible (tree, every handle's size, content and offset) agrees after each call",
		Assumptions: []string{
			"the reference handles agree with the kernel's on the same histories (scenarios osfs.Root and osfs.Fs compare exactly those)",
			"creation modes are given explicitly with an empty umask",
		},
		Scenarios: func(th bool) (out []core.Scenario) {
			for _, mk := range handleKits() {
				d1, d2 := 4, 3
				if mk.name == "synthfs" {
					d1, d2 = 5, 4
				}
				if th {
					d1++
					d2++
				}
				one, two := fileHandleOps(1, th), fileHandleOps(2, th)
				out = append(out,
					core.Scenario{Name: "one handle: " + mk.name, Bound: bound(1, len(one), d1, true), Body: handleBody(mk, one, d1)},
					core.Scenario{Name: "two handles: " + mk.name, Bound: bound(1, len(two), d2, true), Body: handleBody(mk, two, d2)},
				)
			}
			return out
		},
	})
}
