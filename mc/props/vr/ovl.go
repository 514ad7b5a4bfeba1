package vr

import (
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"verif.local/mc/reffs"
)

// memStore is a metadata store kept in memory that outlives Close, so that an
// overlay can be restarted on it. hook is asked before and after every change.
type memStore struct {
	white, opq map[string]bool
	hook       func(op string, after bool) error
}

var _ overlayfs.MetadataStore = (*memStore)(nil)

func newMemStore() *memStore {
	return &memStore{white: map[string]bool{}, opq: map[string]bool{}}
}

func (m *memStore) clone() *memStore {
	c := newMemStore()
	for k := range m.white {
		c.white[k] = true
	}
	for k := range m.opq {
		c.opq[k] = true
	}
	return c
}

func storeName(n string) string { return strings.TrimPrefix(path.Clean("/"+n), "/") }

func (m *memStore) Load() (w, o []string, err error) {
	for k := range m.white {
		w = append(w, k)
	}
	for k := range m.opq {
		o = append(o, k)
	}
	return w, o, nil
}

func (m *memStore) do(op string, fn func()) error {
	if m.hook != nil {
		if err := m.hook(op, false); err != nil {
			return err
		}
	}
	fn()
	if m.hook != nil {
		return m.hook(op, true)
	}
	return nil
}

func (m *memStore) SetWhiteout(n string) error {
	n = storeName(n)
	return m.do("store.SetWhiteout "+n, func() {
		for k := range m.white {
			if under(k, n) {
				delete(m.white, k)
			}
		}
		for k := range m.opq {
			if under(k, n) {
				delete(m.opq, k)
			}
		}
		delete(m.opq, n)
		m.white[n] = true
	})
}

// under tells whether k is strictly below n.
func under(k, n string) bool {
	return k != n && (n == "" || strings.HasPrefix(k, n+"/"))
}

func (m *memStore) ClearWhiteout(n string) error {
	n = storeName(n)
	return m.do("store.ClearWhiteout "+n, func() { delete(m.white, n) })
}

func (m *memStore) SetOpaque(n string) error {
	n = storeName(n)
	return m.do("store.SetOpaque "+n, func() { m.opq[n] = true })
}

func (m *memStore) ClearOpaque(n string) error {
	n = storeName(n)
	return m.do("store.ClearOpaque "+n, func() { delete(m.opq, n) })
}

func (m *memStore) Close() error { return nil }

func (m *memStore) String() string {
	return fmt.Sprintf("whiteouts %q opaque %q", keys(m.white), keys(m.opq))
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// layer is one layer of a stack: its content, and its marks when canonical.
// A canonical layer's content lives in merged/ of fs.
type layer struct {
	fs    *reffs.FS
	store *memStore // nil: plain
	ro    bool      // handed over behind a read-only wrapper
}

func (l layer) content() *reffs.Node {
	if l.store == nil {
		return l.fs.Root
	}
	return l.fs.Root.Kids["merged"]
}

func (l layer) source() *overlayfs.DataSource {
	if l.store == nil {
		return overlayfs.NewDataSource[vroot.File](l.fs)
	}
	var f vroot.Fs[vroot.File] = l.fs
	if l.ro {
		f = vroot.Widen(vroot.NewReadOnlyFs[vroot.File](l.fs))
	}
	d, err := overlayfs.NewDataSourceCanonicalStore(f, l.store)
	if err != nil {
		panic(err)
	}
	return d
}

func (l layer) clone() layer {
	c := layer{fs: l.fs.Clone()}
	if l.store != nil {
		c.store = l.store.clone()
	}
	return c
}

func (l layer) String() string {
	if l.store == nil {
		return "plain\n" + l.fs.Dump()
	}
	return "canonical, " + l.store.String() + "\n" + l.fs.Dump()
}

// stack is top first.
type stack []layer

func (s stack) clone() stack {
	var out stack
	for _, l := range s {
		out = append(out, l.clone())
	}
	return out
}

func (s stack) String() string {
	var b strings.Builder
	for i, l := range s {
		fmt.Fprintf(&b, "layer %d: %v", i, l)
	}
	return b.String()
}

func (s stack) lowers() string { return s[1:].String() }

// mount builds the overlay under test over the stack.
func (s stack) mount(opt *overlayfs.Option) (*overlayfs.Fs, error) {
	var lowers []*overlayfs.DataSource
	for _, l := range s[1:] {
		lowers = append(lowers, l.source())
	}
	return overlayfs.New(s[0].source(), lowers, opt)
}

func (s stack) sys(opt *overlayfs.Option) Sys {
	o, err := s.mount(opt)
	if err != nil {
		panic(err)
	}
	return ofOverlay(o)
}

func ofOverlay(o *overlayfs.Fs) Sys { return ofRoot[vroot.File, *overlayfs.Fs]("overlayfs", true, o) }

// newLayer builds a layer from seed lines; "!a" whites out a, "^a" marks it
// opaque, both only in a canonical layer.
func newLayer(level int, canonical bool, lines []string) layer {
	l := layer{fs: reffs.New()}
	sub := l.fs
	if canonical {
		l.store = newMemStore()
		for _, d := range []string{"merged", "work"} {
			if err := l.fs.Mkdir(d, 0o755); err != nil {
				panic(err)
			}
		}
		sub, _ = l.fs.OpenRoot("merged")
	}
	var rest []string
	for _, s := range lines {
		switch {
		case s[0] == '!':
			l.store.white[strings.TrimPrefix(s[1:], ".")] = true
		case s[0] == '^':
			l.store.opq[strings.TrimPrefix(s[1:], ".")] = true
		default:
			rest = append(rest, s)
		}
	}
	seed(sub, rest)
	stamp(l.content(), level)
	return l
}

// stamp gives every node of a layer a time of its own, and modes that vary.
func stamp(n *reffs.Node, level int) {
	n.Mtime = time.Unix(int64(1_000_000*(level+1)+n.Ino), 0)
	switch i := (level + int(n.Ino)) % 3; {
	case n.Mode.IsDir():
		n.Mode = fs.ModeDir | []fs.FileMode{0o755, 0o775, 0o711}[i]
	case n.Mode.IsRegular():
		n.Mode = []fs.FileMode{0o644, 0o664, 0o600}[i]
	}
	for _, k := range n.Kids {
		stamp(k, level)
	}
}

// stamped tells whether a time was given by stamp.
func stamped(t time.Time) bool { return t.Unix() >= 1_000_000 }

// union computes what the stack shows, independently of the code: entry by
// entry from the root down, the layers asked in mount order.
func union(s stack) *reffs.FS {
	out := reffs.New()
	type part struct {
		layer int
		node  *reffs.Node
	}
	// Names of one file stay that in the top only; lower ones are copied up apart.
	top, links := map[*reffs.Node]bool{}, map[*reffs.Node]*reffs.Node{}
	var mark func(n *reffs.Node)
	mark = func(n *reffs.Node) {
		top[n] = true
		for _, k := range n.Kids {
			mark(k)
		}
	}
	mark(s[0].content())
	var fill func(dst *reffs.Node, name string, parts []part)
	fill = func(dst *reffs.Node, name string, parts []part) {
		names := map[string]bool{}
		for _, p := range parts {
			for k := range p.node.Kids {
				names[k] = true
			}
		}
		// The layers that may contribute to dst's entries are parts; a layer in
		// between that has no such directory still masks.
		last := -1
		if len(parts) > 0 {
			last = parts[len(parts)-1].layer
		}
		for k := range names {
			child := path.Join(name, k)
			var got []part
			var shown *reffs.Node
			cutKids := false
			for i := 0; i <= last; i++ {
				var n *reffs.Node
				for _, p := range parts {
					if p.layer == i {
						n = p.node.Kids[k]
					}
				}
				if n != nil {
					if shown == nil {
						shown = n
					}
					if !n.Mode.IsDir() {
						break
					}
					if !cutKids {
						got = append(got, part{i, n})
					}
				}
				if st := s[i].store; st != nil {
					if st.white[child] {
						break
					}
					if st.opq[child] {
						cutKids = true
					}
				}
			}
			if shown == nil {
				continue
			}
			if f, ok := links[shown]; ok {
				dst.Kids[k] = f
				continue
			}
			c := &reffs.Node{Mode: shown.Mode, Mtime: shown.Mtime, Atime: shown.Atime, Target: shown.Target, Data: append([]byte(nil), shown.Data...)}
			reffs.Attach(out, dst, k, c)
			if c.Mode.IsDir() {
				fill(c, child, got)
			} else if top[shown] {
				links[shown] = c
			}
		}
	}
	var parts []part
	for i, l := range s {
		parts = append(parts, part{i, l.content()})
		// A layer's root can be marked like any directory.
		if l.store != nil && (l.store.opq[""] || l.store.white[""]) {
			break
		}
	}
	out.Root.Mode = s[0].content().Mode
	fill(out.Root, "", parts)
	return out
}

// pure tells whether the directory name comes from the top alone.
func pure(s stack, name string) bool {
	cut := len(s) - 1
	for i := 0; i <= cut; i++ {
		st := s[i].store
		if st == nil {
			continue
		}
		masked := st.white[name] || st.opq[name]
		for p := name; p != ""; {
			p = strings.TrimPrefix(path.Dir("/"+p), "/")
			masked = masked || st.white[p] || st.opq[p]
		}
		if masked {
			cut = i
			break
		}
	}
	for i := 1; i <= cut; i++ {
		n := s[i].content()
		for _, c := range strings.Split(name, "/") {
			if n = n.Kids[c]; n == nil || !n.Mode.IsDir() {
				break
			}
		}
		if n != nil {
			return !n.Mode.IsDir()
		}
	}
	return true
}

// times checks that what the overlay never touched keeps its layer's time.
func times(s Sys, ref *reffs.FS) string {
	var bad string
	var walk func(n *reffs.Node, p string)
	walk = func(n *reffs.Node, p string) {
		if p != "." && stamped(n.Mtime) && n.Mode&fs.ModeSymlink == 0 {
			fi, err := s.Lstat(p)
			if err == nil && !fi.ModTime().Equal(n.Mtime) {
				bad += fmt.Sprintf("%s has modification time %d, the layer's is %d\n", p, fi.ModTime().Unix(), n.Mtime.Unix())
			}
		}
		for _, k := range reffs.Names(n) {
			walk(n.Kids[k], path.Join(p, k))
		}
	}
	walk(ref.Root, ".")
	return bad
}
