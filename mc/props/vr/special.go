package vr

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// special: pipes, sockets and devices of a lower can be looked up, listed,
// replaced and removed, and are refused where they would have to be copied.
func special(c *core.C) {
	kind := core.Pick(c, fs.ModeNamedPipe, fs.ModeSocket, fs.ModeDevice, fs.ModeDevice|fs.ModeCharDevice, fs.ModeIrregular)
	name := core.Pick(c, "p", "a/p", "a/d/p")
	spec := ovlSpec{"special", "", [][]string{{}, {"a/", "a/d/", "a/p=", "a/d/p=", "p=", "g=regular", "l->" + name}}, []bool{false, true}}
	if c.Bool() {
		spec.layers[0] = []string{"a/", "a/d/", "a/q=top"}
	}
	r := newOvlRun(c, spec)
	mark := func(root *reffs.Node) {
		n := reffs.Lookup(&reffs.FS{Root: root}, name, false)
		n.Mode = n.Mode.Perm() | kind
	}
	mark(r.st[1].content())
	mark(r.ref.Root)
	r.lowers = r.st.lowers()
	c.Logf("%s is a %v", name, kind)
	r.compare("mounting")
	copies := []Op{
		{Kind: "chmod", A: name, Mode: 0o600}, {Kind: "chown", A: name}, {Kind: "lchown", A: name}, {Kind: "chtimes", A: name},
		{Kind: "chmod", A: "l", Mode: 0o600}, {Kind: "rename", A: name, B: "n"}, {Kind: "rename", A: name, B: "g"}, {Kind: "link", A: name, B: "n"},
		{Kind: "open", A: name, Flag: os.O_WRONLY}, {Kind: "open", A: name, Flag: os.O_RDWR}, {Kind: "open", A: name, Flag: os.O_RDWR | os.O_TRUNC},
		{Kind: "open", A: name, Flag: os.O_WRONLY | os.O_APPEND}, {Kind: "create", A: name, Data: "x"}, {Kind: "create", A: "l", Data: "x"},
	}
	others := []Op{
		{Kind: "lstat", A: name}, {Kind: "stat", A: "l"}, {Kind: "readlink", A: name},
		{Kind: "remove", A: name}, {Kind: "removeall", A: name}, {Kind: "removeall", A: "a"}, {Kind: "remove", A: "l"}, {Kind: "rename", A: "g", B: name},
		{Kind: "mkdir", A: name, Mode: 0o755}, {Kind: "mkdir", A: name + "/x", Mode: 0o755}, {Kind: "symlink", A: "g", B: name}, {Kind: "link", A: "g", B: name},
		{Kind: "open", A: name, Flag: os.O_WRONLY | os.O_CREATE | os.O_EXCL, Mode: 0o644, Data: "x"}, {Kind: "mkdirall", A: name + "/x", Mode: 0o755}, {Kind: "mkdirall", A: name, Mode: 0o755},
		{Kind: "chmod", A: "a", Mode: 0o700}, {Kind: "create", A: "a/n", Data: "x"}, {Kind: "rename", A: "l", B: "n"},
	}
	for range 2 {
		i := c.Choose(len(copies) + len(others))
		n := reffs.Lookup(r.ref, name, true)
		if i >= len(copies) || n == nil || n.Mode&kind == 0 {
			if i < len(copies) {
				r.step(copies[i])
			} else {
				r.step(others[i-len(copies)])
			}
			continue
		}
		o := copies[i]
		if t := reffs.Lookup(r.ref, o.A, true); t != n {
			r.step(o)
			continue
		}
		c.Step()
		err := opErr(r.s, o)
		c.Logf("%v: %v", o, err)
		if err == nil {
			c.Fail("special:"+o.Kind, "%v succeeds where %s is a %v of a lower\nhistory: %s", o, name, kind, c.History())
		}
		if w, _ := r.try(o); !failed(w) && !errors.Is(err, overlayfs.ErrTypeNotSupported) {
			c.Fail("special-error:"+o.Kind, "%v fails with %v where %s is a %v of a lower\nhistory: %s", o, err, name, kind, c.History())
		}
		r.compare(fmt.Sprint(o))
	}
}

func opErr(s Sys, o Op) error {
	switch o.Kind {
	case "chmod":
		return s.Chmod(o.A, o.Mode)
	case "chown":
		return s.Chown(o.A, 1, 1)
	case "lchown":
		return s.Lchown(o.A, 1, 1)
	case "chtimes":
		return s.Chtimes(o.A, time.Unix(9, 0), time.Unix(9, 0))
	case "rename":
		return s.Rename(o.A, o.B)
	case "link":
		return s.Link(o.A, o.B)
	case "create":
		f, err := s.Create(o.A)
		if err == nil {
			_ = f.Close()
		}
		return err
	case "open":
		f, err := s.OpenFile(o.A, o.Flag, o.Mode)
		if err == nil {
			_ = f.Close()
		}
		return err
	}
	panic(o.Kind)
}
