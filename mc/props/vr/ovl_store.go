package vr

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"strings"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// O05: the sqlite-backed mark store over a disk that crashes, loses power or
// fails, against the contract of MetadataStore (memStore).

func init() {
	core.Register(&core.Property{
		ID:   "O05",
		Rule: "every setter of the mark store is atomic and durable and does what the contract says",
		Assumptions: []string{
			"sqlite itself is the pinned module; it is run, not modelled",
			"creating and removing a file survive a power loss in order (vroot has no directory sync)",
			"a write not yet synced is lost, kept or kept up to a sector boundary, independently of the others",
		},
		Scenarios: o05,
	})
}

var errDead = errors.New("machine is gone")

// diskWrite is one write or truncation a file took since it was last synced.
type diskWrite struct {
	off  int64
	data []byte
	size int64 // for a truncation
	cut  bool
}

// disk is a file system whose files remember what was not synced yet.
type disk struct {
	*reffs.FS
	base    map[string][]byte // content as of the last sync
	pending map[string][]diskWrite
	ask     func(op string, n int) (int, error) // before each call; n: bytes of a write
	locks   map[string]map[*diskFile]vroot.LockLevel
	lockers bool
	dead    bool
}

func newDisk(files map[string][]byte) *disk {
	d := &disk{
		FS: reffs.New(), base: map[string][]byte{}, pending: map[string][]diskWrite{},
		locks: map[string]map[*diskFile]vroot.LockLevel{},
	}
	for k, v := range files {
		d.FS.Put(k, string(v), 0o666)
		d.base[k] = bytes.Clone(v)
	}
	d.FS.Before = func(op reffs.Op) (int, error) {
		switch op.Name {
		case "open", "remove", "stat", "f.readat", "f.stat":
			_, err := d.call(op.Name+" "+op.Path, 0)
			return 0, err
		case "f.close":
			return 0, nil
		}
		if d.dead {
			return 0, errDead
		}
		return 0, nil
	}
	return d
}

func (d *disk) call(op string, n int) (int, error) {
	if d.dead {
		return 0, errDead
	}
	if d.ask == nil {
		return n, nil
	}
	return d.ask(op, n)
}

func (d *disk) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, error) {
	f, err := d.FS.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	df := &diskFile{File: f, d: d, name: name}
	if d.lockers {
		return &lockedFile{df}, nil
	}
	return df, nil
}

func (d *disk) Remove(name string) error {
	err := d.FS.Remove(name)
	if err == nil {
		delete(d.base, name)
		delete(d.pending, name)
	}
	return err
}

// files is the content a process crash leaves: everything written.
func (d *disk) files() map[string][]byte {
	out := map[string][]byte{}
	for _, k := range reffs.Names(d.FS.Root) {
		out[k] = bytes.Clone(d.FS.Root.Kids[k].Data)
	}
	return out
}

func resized(b []byte, n int64) []byte {
	for int64(len(b)) < n {
		b = append(b, 0)
	}
	return b[:n]
}

// afterPowerLoss rebuilds each file from its synced content and those pending
// writes that keep says made it, cut to the length keep returns.
func (d *disk) afterPowerLoss(keep func(file string, i, n int) int) map[string][]byte {
	out := map[string][]byte{}
	for _, k := range reffs.Names(d.FS.Root) {
		b := bytes.Clone(d.base[k])
		for i, w := range d.pending[k] {
			n := keep(k, i, len(w.data))
			if n < 0 {
				continue
			}
			if w.cut {
				b = resized(b, w.size)
				continue
			}
			if end := w.off + int64(n); end > int64(len(b)) {
				b = resized(b, end)
			}
			copy(b[w.off:], w.data[:n])
		}
		out[k] = b
	}
	return out
}

type diskFile struct {
	vroot.File
	d    *disk
	name string
}

func (f *diskFile) WriteAt(b []byte, off int64) (int, error) {
	n, err := f.d.call("write "+f.name, len(b))
	if n > 0 {
		f.d.pending[f.name] = append(f.d.pending[f.name], diskWrite{off: off, data: bytes.Clone(b[:n])})
		if _, e := f.File.WriteAt(b[:n], off); e != nil {
			return 0, e
		}
	}
	return n, err
}

func (f *diskFile) Truncate(n int64) error {
	if _, err := f.d.call("truncate "+f.name, 0); err != nil {
		return err
	}
	f.d.pending[f.name] = append(f.d.pending[f.name], diskWrite{size: n, cut: true})
	return f.File.Truncate(n)
}

func (f *diskFile) Sync() error {
	if _, err := f.d.call("sync "+f.name, 0); err != nil {
		return err
	}
	if n := f.d.FS.Root.Kids[f.name]; n != nil {
		f.d.base[f.name] = bytes.Clone(n.Data)
	}
	delete(f.d.pending, f.name)
	return nil
}

func (f *diskFile) Close() error {
	if m := f.d.locks[f.name]; m != nil {
		delete(m, f)
	}
	return f.File.Close()
}

// lockedFile adds whole-file locks that refuse where a real one would wait.
type lockedFile struct{ *diskFile }

var errLocked = errors.New("locked by another handle")

func (f *lockedFile) Lock(l vroot.LockLevel) error {
	m := f.d.locks[f.name]
	if m == nil {
		m = map[*diskFile]vroot.LockLevel{}
		f.d.locks[f.name] = m
	}
	for o, ol := range m {
		if o != f.diskFile && (l == vroot.LockExclusive || ol == vroot.LockExclusive) {
			return errLocked
		}
	}
	m[f.diskFile] = l
	return nil
}

func (f *lockedFile) Unlock() error {
	delete(f.d.locks[f.name], f.diskFile)
	return nil
}

// setter is one call on a store.
type setter struct{ op, name string }

func (s setter) String() string { return s.op + "(" + s.name + ")" }

func (s setter) on(m overlayfs.MetadataStore) error {
	switch s.op {
	case "SetWhiteout":
		return m.SetWhiteout(s.name)
	case "ClearWhiteout":
		return m.ClearWhiteout(s.name)
	case "SetOpaque":
		return m.SetOpaque(s.name)
	}
	return m.ClearOpaque(s.name)
}

var setterOps = []string{"SetWhiteout", "ClearWhiteout", "SetOpaque", "ClearOpaque"}

func setters(names ...string) (out []setter) {
	for _, n := range names {
		for _, o := range setterOps {
			out = append(out, setter{o, n})
		}
	}
	return out
}

const storeFile = "m"

func openStore(d *disk) (*overlayfs.MetadataStoreSQLite, error) {
	return overlayfs.NewMetadataStoreSQLite[vroot.File](d, storeFile)
}

func loaded(m overlayfs.MetadataStore) (string, error) {
	c, err := loadMarks(m)
	if err != nil {
		return "", err
	}
	return c.String(), nil
}

func loadMarks(m overlayfs.MetadataStore) (*memStore, error) {
	w, o, err := m.Load()
	if err != nil {
		return nil, err
	}
	c := newMemStore()
	for _, n := range w {
		if c.white[n] {
			return nil, fmt.Errorf("whiteout %q loaded twice", n)
		}
		c.white[n] = true
	}
	for _, n := range o {
		if c.opq[n] {
			return nil, fmt.Errorf("opaque %q loaded twice", n)
		}
		c.opq[n] = true
	}
	return c, nil
}

// reopened opens the store in files anew and returns what it loads. It then
// makes sure the store still works.
func reopened(c *core.C, files map[string][]byte, what string) string {
	d := newDisk(files)
	s, err := openStore(d)
	if err != nil {
		c.Fail("reopen", "opening the store after %s: %v", what, err)
	}
	m, err := loadMarks(s)
	if err != nil {
		c.Fail("reopen", "loading the store after %s: %v", what, err)
	}
	got := m.String()
	for _, st := range []setter{{"SetOpaque", "zz"}, {"SetWhiteout", "a"}} {
		if err := st.on(s); err != nil {
			c.Fail("reopen", "%v after %s: %v", st, what, err)
		}
		_ = st.on(m)
	}
	if now, err := loaded(s); err != nil || now != m.String() {
		c.Fail("reopen", "after %s, opening again and two setters: %v %v, want %v", what, now, err, m)
	}
	if err := s.Close(); err != nil {
		c.Fail("reopen", "closing the store after %s: %v", what, err)
	}
	return got
}

// storeImage is a store prepared with setters, and its database.
type storeImage struct {
	label string
	marks *memStore
	files map[string][]byte
}

func image(label string, prep []setter) storeImage {
	im := storeImage{label: label, marks: newMemStore()}
	d := newDisk(nil)
	s, err := openStore(d)
	if err != nil {
		panic(err)
	}
	for _, st := range prep {
		if err := st.on(s); err != nil {
			panic(err)
		}
		_ = st.on(im.marks)
	}
	if err := s.Close(); err != nil {
		panic(err)
	}
	im.files = d.files()
	return im
}

func storeImages() []storeImage {
	var big []setter
	for i := range 48 {
		n := fmt.Sprintf("a/%02d%s", i, strings.Repeat("x", 400))
		big = append(big, setter{"SetWhiteout", n})
		if i%8 == 0 {
			big = append(big, setter{"SetOpaque", fmt.Sprintf("b/%d", i)})
		}
	}
	return []storeImage{
		image("empty", nil),
		image("few marks", []setter{
			{"SetOpaque", "a"}, {"SetWhiteout", "a/b"}, {"SetWhiteout", "a/b/c"}, {"SetOpaque", "a/d"},
			{"SetWhiteout", "b"}, {"SetOpaque", ""},
		}),
		image("many marks", big),
	}
}

func o05(th bool) (out []core.Scenario) {
	names := []string{"a", "a/b", "a/b/c", ""}
	depth := 3
	if th {
		depth = 4
		names = append(names, "b")
	}
	ops := setters(names...)
	out = append(out, core.Scenario{
		Name:  "setters",
		Bound: fmt.Sprintf("%d setters out of %d, closed and opened again at any point", depth, len(ops)),
		Body: func(c *core.C) {
			d := newDisk(nil)
			m := newMemStore()
			s, err := openStore(d)
			if err != nil {
				c.Fail("open", "open: %v", err)
			}
			defer func() { _ = s.Close() }()
			for i := range depth {
				if i > 0 && c.Bool() {
					c.Logf("reopen")
					if err := s.Close(); err != nil {
						c.Fail("close", "close: %v", err)
					}
					if n := len(d.files()); n != 1 {
						c.Fail("close", "closed store left %d files", n)
					}
					if s, err = openStore(d); err != nil {
						c.Fail("reopen", "reopen: %v", err)
					}
				}
				st := core.Pick(c, ops...)
				c.Step()
				c.Logf("%v", st)
				if err := st.on(s); err != nil {
					c.Fail("setter", "%v: %v", st, err)
				}
				_ = st.on(m)
				got, err := loaded(s)
				if err != nil || got != m.String() {
					c.Fail("setter", "after %v: %v %v, want %v", st, got, err, m)
				}
				if !c.Visit(fmt.Sprint(got, len(d.files())), depth-i-1) {
					return
				}
			}
			d.FS.Before = nil
			if d.Open_ == 0 {
				c.Fail("close", "store works without an open file")
			}
			if got := reopened(c, d.files(), "a crash between calls"); got != m.String() {
				c.Fail("durable", "after reopening: %v, want %v", got, m)
			}
		},
	})
	odd := []string{
		"a", "a/", "./a", "/a", "x/../a", "../a", "a//b", "a/./b", "/", ".", "..", "A", "a0", "a-", "a.", "a/0",
		"a/b", "ab", `a\b`, "a b", "a'b", "a%", "a_", "a?", "*", "日本", "a\n", "a\x01", "e\u0301", "é", "a/é", "a\x80",
	}
	out = append(out, core.Scenario{
		Name:  "odd names",
		Bound: fmt.Sprintf("2 marks on %d names each, then a setter on each name", len(odd)),
		Body: func(c *core.C) {
			d := newDisk(nil)
			m := newMemStore()
			s, err := openStore(d)
			if err != nil {
				c.Fail("open", "open: %v", err)
			}
			defer func() { _ = s.Close() }()
			first := core.Pick(c, odd...)
			mark := core.Pick(c, []string{"SetWhiteout", "SetOpaque"}...)
			st := core.Pick(c, setters(odd...)...)
			for _, st := range []setter{{mark, first}, {"SetOpaque", "a/b"}, st} {
				c.Step()
				if err := st.on(s); err != nil {
					c.Fail("setter", "%v: %v", st, err)
				}
				_ = st.on(m)
			}
			got, err := loaded(s)
			if err != nil || got != m.String() {
				c.Fail("names", "after %s(%q) SetOpaque(a/b) %s(%q): %q %v, want %q", mark, first, st.op, st.name, got, err, m.String())
			}
		},
	})

	images := storeImages()
	inFlight := setters("a", "a/b", "", "c")
	for _, im := range images {
		for _, power := range []bool{false, true} {
			name := "process crash: "
			if power {
				name = "power loss: "
			}
			before := 0
			if th && im.label != "many marks" {
				before = 1
			}
			todo := inFlight
			if power && !th {
				todo = setters("a", "c")
				if im.label == "many marks" {
					todo = []setter{{"SetWhiteout", "a"}}
				}
			}
			out = append(out, core.Scenario{
				Name:  name + im.label,
				Bound: fmt.Sprintf("%d setters out of %d, the last stopped at any call to the disk", before+1, len(todo)),
				Body:  func(c *core.C) { storeCrash(c, im, todo, before, power, th) },
			})
		}
		out = append(out, core.Scenario{
			Name:  "disk errors: " + im.label,
			Bound: "one setter with any call to the disk failing once or for good, then two setters",
			Body:  func(c *core.C) { storeFault(c, im, inFlight) },
		})
	}
	out = append(out,
		core.Scenario{
			Name:  "creation cut short",
			Bound: "creating a store, or a canonical layer, stopped at any call to the disk",
			Body:  storeCreate,
		},
		core.Scenario{
			Name:  "exclusive use",
			Bound: "two stores on one database over files with locks, opened, used and closed in any order to 5 calls",
			Body:  storeLocks,
		},
		core.Scenario{
			Name:  "foreign databases",
			Bound: "other versions, other files, each byte of a page count cut off",
			Body:  func(c *core.C) { storeForeign(c, images[1]) },
		},
	)
	return out
}

// storeCrash runs setters and stops the machine in the last of them.
func storeCrash(c *core.C, im storeImage, ops []setter, before int, power, th bool) {
	d := newDisk(im.files)
	s, err := openStore(d)
	if err != nil {
		c.Fail("open", "open: %v", err)
	}
	m := im.marks.clone()
	for range before {
		st := core.Pick(c, ops...)
		c.Logf("%v", st)
		if err := st.on(s); err != nil {
			c.Fail("setter", "%v: %v", st, err)
		}
		_ = st.on(m)
	}
	old := m.String()
	st := core.Pick(c, ops...)
	_ = st.on(m)
	calls, at := 0, ""
	d.ask = func(op string, n int) (int, error) {
		calls++
		c.Step()
		if !c.Bool() {
			return n, nil
		}
		d.dead = true
		at = fmt.Sprintf("%s (call %d)", op, calls)
		if n > 0 && !power {
			n = core.Pick(c, []int{0, 1, n / 2, n}...)
			return n, errDead
		}
		return 0, errDead
	}
	err = st.on(s)
	d.ask = nil
	when := "in " + at
	if !d.dead {
		when = "after the setter returned"
		if err != nil {
			c.Fail("setter", "%v: %v", st, err)
		}
		d.dead = true
	}
	c.Logf("%v, crash %s", st, when)
	var files map[string][]byte
	if power {
		keepOf := func() bool { return c.Bool() }
		if im.label == "many marks" {
			// Too many writes for all subsets: all kept or all lost, but for two.
			all, exceptions := c.Bool(), 2
			keepOf = func() bool {
				if exceptions > 0 && c.Bool() {
					exceptions--
					return !all
				}
				return all
			}
		}
		files = d.afterPowerLoss(func(file string, i, n int) int {
			if im.label == "many marks" {
				if keepOf() {
					return n
				}
				return -1
			}
			if n > 4096 || th && n > 100 {
				return []int{n, -1, n / 2}[c.Choose(3)]
			}
			if keepOf() {
				return -1
			}
			return n
		})
	} else {
		files = d.files()
	}
	_ = s.Close()
	what := fmt.Sprintf("%v and a crash %s", st, when)
	got := reopened(c, files, what)
	switch {
	case got == m.String():
		c.Outcome("done")
	case err == nil:
		c.Fail("durable", "after %s the setter is not there: %s, want %s", what, brief(got), brief(m.String()))
	case got == old:
		c.Outcome("not done")
	default:
		c.Fail("atomic", "after %s: %s, want %s or %s", what, brief(got), brief(old), brief(m.String()))
	}
}

func brief(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%s... (%d bytes)", s[:400], len(s))
	}
	return s
}

var errDisk = errors.New("disk error")

// storeFault lets a call to the disk fail, once or from then on.
func storeFault(c *core.C, im storeImage, ops []setter) {
	d := newDisk(im.files)
	s, err := openStore(d)
	if err != nil {
		c.Fail("open", "open: %v", err)
	}
	forGood := c.Bool()
	sts := []setter{core.Pick(c, ops...), {"SetOpaque", "y"}, {"SetWhiteout", "a/b"}}
	failed := false
	on := true
	d.ask = func(op string, n int) (int, error) {
		if !on || failed && !forGood {
			return n, nil
		}
		if !failed {
			c.Step()
			if !c.Bool() {
				return n, nil
			}
			failed = true
			c.Logf("error at %s", op)
		}
		return n / 2, errDisk
	}
	// Each setter that failed may or may not have happened.
	may := map[string]*memStore{im.marks.String(): im.marks.clone()}
	apply := func(st setter, err error) {
		next := map[string]*memStore{}
		for k, m := range may {
			if err != nil {
				next[k] = m
			}
			m = m.clone()
			_ = st.on(m)
			next[m.String()] = m
		}
		may = next
	}
	for i, st := range sts {
		err := st.on(s)
		c.Logf("%v: %v", st, err)
		apply(st, err)
		if err != nil && !failed {
			c.Fail("setter", "%v: %v", st, err)
		}
		if i == 0 {
			// The fault is in the first setter, or there is none.
			if !failed {
				return
			}
			if !forGood {
				on = false
			}
		}
		if i == 0 && forGood {
			continue
		}
		if got, err := loaded(s); err == nil && may[got] == nil {
			c.Fail("fault", "%v left the open store at %s, want one of %s", st, brief(got), brief(fmt.Sprint(keysOf(may))))
		}
	}
	on = false
	_ = s.Close()
	got := reopened(c, d.files(), "a disk error")
	if may[got] == nil {
		c.Fail("fault", "after %v with a disk error the reopened store holds %s, want one of %s", sts, brief(got), brief(fmt.Sprint(keysOf(may))))
	}
}

func keysOf(m map[string]*memStore) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	return out
}

// storeCreate stops the creation of a store at any call.
func storeCreate(c *core.C) {
	layer := c.Bool()
	fail := c.Bool()
	power := !layer && c.Bool()
	d := newDisk(nil)
	calls, at, done := 0, "", false
	stop := func(op string, n int) (int, error) {
		if done {
			return n, nil
		}
		calls++
		c.Step()
		if !c.Bool() {
			return n, nil
		}
		at = fmt.Sprintf("%s (call %d)", op, calls)
		done = true
		if !fail {
			d.dead = true
			return 0, errDead
		}
		return 0, errDisk
	}
	d.ask = stop
	before := d.FS.Before
	d.FS.Before = func(op reffs.Op) (int, error) {
		switch op.Name {
		case "mkdir", "mkdirall", "lstat":
			if _, err := d.call(op.Name+" "+op.Path, 0); err != nil {
				return 0, err
			}
		}
		return before(op)
	}
	create := func(d *disk) (func() error, error) {
		if layer {
			ds, err := overlayfs.NewDataSourceCanonical[vroot.File](d)
			if err != nil {
				return nil, err
			}
			return ds.Close, nil
		}
		s, err := openStore(d)
		if err != nil {
			return nil, err
		}
		return s.Close, nil
	}
	cl, err := create(d)
	if err != nil && !done {
		c.Fail("create", "creating: %v", err)
	}
	if err == nil {
		if e := cl(); e != nil && !done {
			c.Fail("create", "closing: %v", e)
		}
		c.Outcome("created")
	}
	if !done {
		at = "(none)"
	}
	c.Logf("stopped at %s: %v", at, err)
	d.ask = nil
	next := newDisk(nil)
	switch {
	case power:
		files := d.afterPowerLoss(func(string, int, int) int { return 1 - 2*c.Choose(2) })
		_ = files
		files = d.files()
		next = newDisk(files)
	default:
		for _, k := range reffs.Names(d.FS.Root) {
			n := d.FS.Root.Kids[k]
			if n.Mode.IsDir() {
				_ = next.FS.Mkdir(k, n.Mode.Perm())
			} else {
				next.FS.Put(k, string(n.Data), n.Mode.Perm())
				next.base[k] = bytes.Clone(n.Data)
			}
		}
	}
	cl, err = create(next)
	if err != nil {
		c.Fail("create", "creating again after a first attempt stopped at %s: %v", at, err)
	}
	if err := cl(); err != nil {
		c.Fail("create", "closing after a first attempt stopped at %s: %v", at, err)
	}
	name := storeFile
	if layer {
		for _, k := range []string{"merged", "work"} {
			if n := next.FS.Root.Kids[k]; n == nil || !n.Mode.IsDir() {
				c.Fail("create", "no %s after creating again", k)
			}
		}
		name = "meta.sqlite3"
	}
	if got := reopened(c, map[string][]byte{storeFile: next.FS.Root.Kids[name].Data}, "creating again"); got != newMemStore().String() {
		c.Fail("create", "a new store holds %s", got)
	}
}

// storeLocks opens two stores on one database.
func storeLocks(c *core.C) {
	d := newDisk(nil)
	d.lockers = true
	m := newMemStore()
	var s [2]*overlayfs.MetadataStoreSQLite
	for i := range 5 {
		k := c.Choose(2)
		switch {
		case s[k] == nil:
			st, err := openStore(d)
			c.Logf("%d open: %v", k, err)
			if s[1-k] != nil {
				if err == nil {
					c.Fail("locks", "two stores opened on one database at once")
				}
				continue
			}
			if err != nil {
				c.Fail("locks", "opening a database nobody holds: %v", err)
			}
			s[k] = st
		case c.Bool():
			c.Logf("%d close", k)
			if err := s[k].Close(); err != nil {
				c.Fail("locks", "close: %v", err)
			}
			s[k] = nil
			for f, l := range d.locks {
				if len(l) > 0 {
					c.Fail("locks", "closing left %s locked", f)
				}
			}
			if d.Open_ != 0 {
				c.Fail("locks", "closing left %d files open", d.Open_)
			}
		default:
			st := setter{"SetWhiteout", fmt.Sprint("n", i)}
			c.Logf("%d %v", k, st)
			if err := st.on(s[k]); err != nil {
				c.Fail("locks", "%v: %v", st, err)
			}
			_ = st.on(m)
			if got, err := loaded(s[k]); err != nil || got != m.String() {
				c.Fail("locks", "%v: %v %v, want %v", st, got, err, m)
			}
		}
	}
	for _, x := range s {
		if x != nil {
			_ = x.Close()
		}
	}
}

// storeForeign opens databases this version did not write.
func storeForeign(c *core.C, im storeImage) {
	file := bytes.Clone(im.files[storeFile])
	var what string
	wantErr := true
	switch c.Choose(5) {
	case 0:
		v := core.Pick(c, []string{"2", "0", "x", " "}...)
		what = "version " + v
		n := bytes.Replace(file, []byte("version1"), []byte("version"+v), 1)
		if bytes.Equal(n, file) {
			// The layout of the row changed; nothing to try.
			return
		}
		file = n
	case 1:
		what = "no version"
		n := bytes.Replace(file, []byte("version1"), []byte("versiom1"), 1)
		if bytes.Equal(n, file) {
			return
		}
		// Without a version it may be anything; it may be adopted or refused, but not emptied.
		file, wantErr = n, false
	case 2:
		what = "not a database"
		file = []byte(strings.Repeat("this is a text file\n", 300))
	case 3:
		what = "an empty file"
		file, wantErr = nil, false
	case 4:
		n := 1 + c.Choose(len(file)/512-1)
		what = fmt.Sprintf("cut to %d bytes", n*512)
		file = file[:n*512]
	}
	d := newDisk(map[string][]byte{storeFile: file})
	s, err := openStore(d)
	c.Logf("%s: %v", what, err)
	if err == nil {
		got, lerr := loaded(s)
		if lerr == nil && wantErr && got != im.marks.String() {
			c.Fail("foreign", "%s: opened, holding %s", what, got)
		}
		if strings.HasPrefix(what, "version") {
			c.Fail("foreign", "%s: opened", what)
		}
		_ = s.Close()
		return
	}
	if !wantErr {
		c.Fail("foreign", "%s: %v", what, err)
	}
	if d.Open_ != 0 {
		c.Fail("foreign", "%s: refused, leaving %d files open", what, d.Open_)
	}
	if now := d.FS.Root.Kids[storeFile].Data; !bytes.Equal(now, file) {
		c.Fail("foreign", "%s: refused but changed the file", what)
	}
}
