// Package tarp checks the tarfs module.
package tarp

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"slices"
	"strings"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/tarfs"
	"verif.local/mc/core"
)

type ent struct {
	name, link, body string
	typ              byte
}

func (e ent) String() string {
	switch e.typ {
	case tar.TypeReg:
		return fmt.Sprintf("file %s=%q", e.name, e.body)
	case tar.TypeDir:
		return "dir " + e.name
	case tar.TypeSymlink:
		return "symlink " + e.name + "->" + e.link
	case tar.TypeLink:
		return "hardlink " + e.name + "=>" + e.link
	}
	return fmt.Sprintf("type%q %s", e.typ, e.name)
}

func build(c *core.C, ents []ent) []byte {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	for _, e := range ents {
		h := &tar.Header{Name: e.name, Typeflag: e.typ, Linkname: e.link, Mode: 0o644}
		if e.typ == tar.TypeDir {
			h.Mode = 0o755
		}
		if e.typ == tar.TypeReg {
			h.Size = int64(len(e.body))
		}
		if err := w.WriteHeader(h); err != nil {
			c.Prune()
		}
		if e.typ == tar.TypeReg {
			_, _ = io.WriteString(w, e.body)
		}
	}
	_ = w.Close()
	return buf.Bytes()
}

// node is the reference tree.
type node struct {
	kind   byte // 'f', 'd', 'l' (symlink), 'h' (hard link)
	name   string
	body   string
	link   string
	typ    fs.FileMode // of a fifo or device shown as a file
	parent *node
	kids   map[string]*node
}

var devTypes = map[byte]fs.FileMode{tar.TypeFifo: fs.ModeNamedPipe, tar.TypeBlock: fs.ModeDevice, tar.TypeChar: fs.ModeDevice | fs.ModeCharDevice}

func (n *node) dir() {
	n.kind = 'd'
	if n.kids == nil {
		n.kids = map[string]*node{}
	}
}

// model: the last header of a name wins; a name with descendants is a directory.
func model(ents []ent, symlinks, dev bool) *node {
	last := map[string]ent{}
	for _, e := range ents {
		last[path.Clean(e.name)] = e
	}
	root := &node{name: "."}
	root.dir()
	keys := make([]string, 0, len(last))
	for k := range last {
		keys = append(keys, k)
	}
	slices.Sort(keys)
	for _, k := range keys {
		e := last[k]
		if k == "." || !fs.ValidPath(k) {
			continue
		}
		switch e.typ {
		case tar.TypeSymlink:
			if !symlinks {
				continue
			}
		case tar.TypeFifo, tar.TypeChar, tar.TypeBlock:
			if !dev {
				continue
			}
		}
		cur := root
		parts := strings.Split(k, "/")
		for i, p := range parts {
			kid := cur.kids[p]
			if kid == nil {
				kid = &node{name: p, parent: cur}
				cur.kids[p] = kid
			}
			if i < len(parts)-1 {
				kid.dir()
			} else {
				switch e.typ {
				case tar.TypeDir:
					kid.dir()
				case tar.TypeSymlink:
					kid.kind, kid.link = 'l', e.link
				case tar.TypeLink:
					kid.kind, kid.link = 'h', e.link
				default:
					kid.kind, kid.body, kid.typ = 'f', e.body, devTypes[e.typ]
				}
			}
			cur = kid
		}
	}
	return root
}

type resolver struct {
	root, sub *node
	rooted    bool
	hops      int
	hard      int
}

const (
	rOK = iota
	rNotExist
	rNotDir
	rLoop
	rEscape
)

// resolve walks name like the kernel does, from dir cur.
func (r *resolver) resolve(cur *node, name string, follow bool) (*node, int) {
	var comps []string
	for _, p := range strings.Split(name, "/") {
		if p != "" {
			comps = append(comps, p)
		}
	}
	for i := 0; i < len(comps); i++ {
		p := comps[i]
		if cur.kind != 'd' {
			return nil, rNotDir
		}
		switch p {
		case ".":
			continue
		case "..":
			if cur.parent == nil || (r.rooted && cur == r.sub) {
				return nil, rEscape
			}
			cur = cur.parent
			continue
		}
		n := cur.kids[p]
		if n == nil {
			return nil, rNotExist
		}
		lastC := i == len(comps)-1
		if n.kind == 'l' && (!lastC || follow) {
			r.hops++
			if r.hops > 40 {
				return nil, rLoop
			}
			if strings.HasPrefix(n.link, "/") {
				return nil, rEscape
			}
			var nc []string
			for _, q := range strings.Split(n.link, "/") {
				if q != "" {
					nc = append(nc, q)
				}
			}
			comps = append(nc, comps[i+1:]...)
			i = -1
			continue
		}
		if n.kind == 'h' {
			t, code := r.hardTarget(n)
			if code != rOK {
				return nil, code
			}
			n = t
		}
		cur = n
	}
	return cur, rOK
}

// hardTarget is what a hard link names: the entry at its target path.
func (r *resolver) hardTarget(n *node) (*node, int) {
	r.hard++
	if r.hard > 40 {
		return nil, rLoop
	}
	l := path.Clean(n.link)
	if !fs.ValidPath(l) {
		return nil, rEscape
	}
	// A link's target is a name in the archive, looked up from its root.
	return r.resolve(r.root, l, true)
}

func probe(depth int, names []string) []string {
	out := []string{"."}
	level := []string{""}
	for i := 0; i < depth; i++ {
		var next []string
		for _, b := range level {
			for _, n := range names {
				p := n
				if b != "" {
					p = b + "/" + n
				}
				next = append(next, p)
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

func checkFS(c *core.C, fsys *tarfs.Fs, root, sub *node, rooted bool, probes []string) {
	for _, p := range probes {
		c.Step()
		r := &resolver{root: root, sub: sub, rooted: rooted}
		want, code := r.resolve(sub, p, true)
		f, err := fsys.Open(p)
		if code != rOK {
			if err == nil {
				c.Fail("tar-open-resolves", "Open(%q) succeeded, reference resolution fails (%d)", p, code)
			}
			if rooted && code == rEscape && !errors.Is(err, fsutil.ErrPathEscapes) && !errors.Is(err, fs.ErrNotExist) {
				c.Fail("tar-escape-error", "Open(%q) escapes, got %v", p, err)
			}
		} else {
			if err != nil {
				c.Fail("tar-open-fails", "Open(%q): %v, reference finds %c %s", p, err, want.kind, want.name)
			}
			if want.kind == 'd' && r.hard > 0 {
				// A hard link to a directory is not a thing; it only must not blow up.
				f.Close()
			} else {
				checkFile(c, p, f, want)
			}
		}
		// Lstat and ReadLink look at the entry itself.
		r = &resolver{root: root, sub: sub, rooted: rooted}
		dirp, base := path.Split(p)
		d, dcode := r.resolve(sub, dirp, true)
		var self *node
		if p == "." {
			self, dcode = sub, rOK
		} else if dcode == rOK {
			if d.kind != 'd' {
				dcode = rNotDir
			} else {
				self = d.kids[base]
				if self == nil {
					dcode = rNotExist
				} else if self.kind == 'h' {
					if _, hc := r.hardTarget(self); hc != rOK {
						self = nil
						dcode = hc
					}
				}
			}
		}
		fi, err := fsys.Lstat(p)
		if dcode != rOK {
			if err == nil && self != nil {
				c.Fail("tar-lstat-resolves", "Lstat(%q) succeeded, reference fails (%d)", p, dcode)
			}
		} else {
			if err != nil {
				c.Fail("tar-lstat-fails", "Lstat(%q): %v", p, err)
			}
			switch {
			case self.kind == 'd' && !fi.IsDir(), self.kind == 'l' && fi.Mode()&fs.ModeSymlink == 0,
				self.kind == 'f' && fi.Mode().Type() != self.typ:
				c.Fail("tar-lstat-kind", "Lstat(%q) says %v, reference %c", p, fi.Mode(), self.kind)
			}
			if p != "." && fi.Name() != path.Base(p) {
				c.Fail("tar-lstat-name", "Lstat(%q).Name()=%q", p, fi.Name())
			}
		}
		l, err := fsys.ReadLink(p)
		if isl := dcode == rOK && self.kind == 'l'; isl != (err == nil) {
			c.Fail("tar-readlink", "ReadLink(%q)=%q,%v; symlink=%v", p, l, err, isl)
		} else if isl && path.Clean(l) != path.Clean(self.link) {
			c.Fail("tar-readlink", "ReadLink(%q)=%q want %q", p, l, self.link)
		}
	}
}

func checkFile(c *core.C, p string, f fs.File, want *node) {
	defer f.Close()
	fi, err := f.Stat()
	if err != nil {
		c.Fail("tar-stat", "Stat of open %q: %v", p, err)
	}
	if want.kind == 'd' {
		if !fi.IsDir() {
			c.Fail("tar-kind", "%q is a directory, Stat says %v", p, fi.Mode())
		}
		rd, ok := f.(fs.ReadDirFile)
		if !ok {
			c.Fail("tar-readdir", "%q does not implement ReadDir", p)
		}
		var names []string
		n := -1
		if c.Choose(1) == 0 {
			n = 1 // one at a time; must equal the whole listing
		}
		kinds := map[string]fs.FileMode{}
		for i := 0; i < 50; i++ {
			es, err := rd.ReadDir(n)
			for _, e := range es {
				names = append(names, e.Name())
				kinds[e.Name()] = e.Type()
				info, ierr := e.Info()
				if ierr != nil || info.Name() != e.Name() {
					c.Fail("tar-direntry", "entry %q of %q: info %v %v", e.Name(), p, info, ierr)
				}
			}
			if err == io.EOF {
				break
			}
			if err != nil {
				c.Fail("tar-readdir", "ReadDir(%q): %v", p, err)
			}
		}
		slices.Sort(names)
		var wn []string
		for k := range want.kids {
			wn = append(wn, k)
		}
		slices.Sort(wn)
		if !slices.Equal(names, wn) {
			c.Fail("tar-listing", "ReadDir(%q)=%q want %q", p, names, wn)
		}
		for _, k := range wn {
			kid := want.kids[k]
			if (kid.kind == 'd') != kinds[k].IsDir() || (kid.kind == 'l') != (kinds[k]&fs.ModeSymlink != 0) || kid.kind == 'f' && kinds[k] != kid.typ {
				c.Fail("tar-listing-kind", "ReadDir(%q): entry %q has type %v, reference %c", p, k, kinds[k], kid.kind)
			}
		}
		return
	}
	if fi.IsDir() {
		c.Fail("tar-kind", "%q is a file, Stat says %v", p, fi.Mode())
	}
	b, err := io.ReadAll(f)
	if err != nil || string(b) != want.body {
		c.Fail("tar-content", "content of %q is %q (%v), want %q", p, b, err, want.body)
	}
	if fi.Size() != int64(len(want.body)) {
		c.Fail("tar-size", "Stat(%q).Size()=%d, content has %d bytes", p, fi.Size(), len(want.body))
	}
	if ra, ok := f.(io.ReaderAt); ok && len(b) > 0 {
		q := make([]byte, 1)
		for off := 0; off < len(b); off++ {
			if n, err := ra.ReadAt(q, int64(off)); n != 1 || (err != nil && err != io.EOF) || q[0] != b[off] {
				c.Fail("tar-readat", "ReadAt(%q,%d)=%q,%v", p, off, q[:n], err)
			}
		}
	}
}

func archives(maxEnts int, alpha []ent, probes []string, devs bool) func(c *core.C) {
	return func(c *core.C) {
		n := c.Choose(maxEnts + 1)
		var ents []ent
		for i := 0; i < n; i++ {
			e := alpha[c.Choose(len(alpha))]
			if e.typ == tar.TypeReg {
				e.body = fmt.Sprintf("<%d>", i)
			}
			ents = append(ents, e)
			c.Logf("%v", e)
		}
		rooted := c.Bool()
		symlinks := true
		if n <= 2 {
			symlinks = !c.Bool()
		}
		dev := devs && c.Bool()
		c.Logf("rooted=%v symlinks=%v dev=%v", rooted, symlinks, dev)
		raw := build(c, ents)
		fsys, err := tarfs.New(bytes.NewReader(raw), &tarfs.FsOption{HandleSymlink: symlinks, IsRooted: rooted, AllowDev: dev})
		if err != nil {
			if _, terr := countTar(raw); terr == nil {
				c.Fail("tar-new", "New: %v", err)
			}
			return
		}
		root := model(ents, symlinks, dev)
		checkFS(c, fsys, root, root, rooted, probes)
		// Sub views.
		for k, kid := range root.kids {
			if kid.kind != 'd' {
				continue
			}
			s, err := fsys.Sub(k)
			if err != nil {
				c.Fail("tar-sub", "Sub(%q): %v", k, err)
			}
			checkFS(c, s.(*tarfs.Fs), root, kid, rooted, probes[:min(len(probes), 12)])
		}
	}
}

func countTar(raw []byte) (int, error) {
	tr := tar.NewReader(bytes.NewReader(raw))
	for n := 0; ; n++ {
		if _, err := tr.Next(); err == io.EOF {
			return n, nil
		} else if err != nil {
			return n, err
		}
	}
}

func alphabet(names []string, links, hards []string) []ent {
	var out []ent
	for _, n := range names {
		out = append(out, ent{name: n, typ: tar.TypeReg}, ent{name: n, typ: tar.TypeDir})
		for _, l := range links {
			out = append(out, ent{name: n, typ: tar.TypeSymlink, link: l})
		}
		for _, h := range hards {
			out = append(out, ent{name: n, typ: tar.TypeLink, link: h})
		}
	}
	return out
}

func init() {
	core.Register(&core.Property{
		ID: "T01",
		Rule: "every archive of up to the stated number of entries over the alphabet (names x types x link targets), with and without rooted mode and symlink handling; " +
			"every probe path is opened, stat'ed, listed, read and compared with a reference tree resolved like a kernel would",
		Assumptions: []string{"archives are written by archive/tar"},
		Scenarios: func(th bool) []core.Scenario {
			odd := alphabet([]string{"a", "a/b", "./a/b", "..x", "/a", "../e", ".", "a/b/c", "b/"}, []string{"a", "..", "."}, []string{"a", "./a/b"})
			links := alphabet([]string{"a", "b", "a/b"}, []string{"a", "b", ".", "..", "../b", "a/..", "/a", "a/b", "b/../a"}, []string{"a", "b", "a/b"})
			deep := alphabet([]string{"a", "a/b", "c", "a/d/e"}, []string{"a/d", "../..", "../c", "b/.."}, []string{"c"})
			devs := alphabet([]string{"a", "a/b", "b"}, []string{"a", "a/b"}, []string{"a", "b"})
			for _, n := range []string{"a", "a/b", "b"} {
				for t := range devTypes {
					devs = append(devs, ent{name: n, typ: t})
				}
			}
			slices.SortStableFunc(devs[len(devs)-9:], func(x, y ent) int { return int(x.typ) - int(y.typ) })
			ss := []core.Scenario{
				{Name: "devices", Bound: "0..3 entries, 27 kinds each, with and without AllowDev", Body: archives(3, devs, probe(2, []string{"a", "b"}), true)},
				{Name: "names", Bound: "0..2 entries, 63 kinds each", Body: archives(2, odd, probe(3, []string{"a", "b", "c", "..x"}), false)},
				{Name: "links", Bound: "0..3 entries, 42 kinds each", Body: archives(3, links, probe(2, []string{"a", "b"}), false)},
			}
			if th {
				ss = append(ss, core.Scenario{Name: "deep4", Bound: "0..4 entries, 28 kinds each", Body: archives(4, deep, probe(3, []string{"a", "c", "d", "b"}), false)},
					core.Scenario{Name: "names3", Bound: "0..3 entries, 63 kinds each", Body: archives(3, odd, probe(3, []string{"a", "b", "c", "..x"}), false)})
			} else {
				ss = append(ss, core.Scenario{Name: "deep", Bound: "0..3 entries, 28 kinds each", Body: archives(3, deep, probe(3, []string{"a", "c", "d", "b"}), false)})
			}
			return ss
		},
	})
}
