package vr

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif.local/mc/core"
)

// V10: advisory locks of files on a real directory.

// lockActor is one handle and what its user is doing.
type lockActor struct {
	how     string
	f       vroot.File
	l       vroot.Locker
	holds   vroot.LockLevel // 0: nothing
	wants   vroot.LockLevel // of the call in flight
	done    chan error
	waiting bool
	closed  bool
}

type lockWorld struct {
	c     *core.C
	dir   string
	inode string
	as    []*lockActor
	probe int
}

var lockViews = []string{"Fs", "Root", "other name", "prefix", "read only flag", "write only flag", "created", "normalizer", "widened root"}

func openLocked(dir, how string) (vroot.File, error) {
	if how == "Root" || how == "widened root" {
		r, err := osfs.NewRoot(dir)
		if err != nil {
			return nil, err
		}
		defer r.Close()
		if how == "Root" {
			return r.OpenFile("f", os.O_RDWR, 0)
		}
		return vroot.Widen(r).OpenFile("f", os.O_RDWR, 0)
	}
	o, err := osfs.NewFs(dir)
	if err != nil {
		return nil, err
	}
	w := vroot.Widen(o)
	switch how {
	case "other name":
		return w.OpenFile("d/g", os.O_RDWR, 0)
	case "prefix":
		p, err := vroot.NewPathPrefixFs(w, "d")
		if err != nil {
			return nil, err
		}
		return p.OpenFile("g", os.O_RDWR, 0)
	case "read only flag":
		return w.Open("f")
	case "write only flag":
		return w.OpenFile("f", os.O_WRONLY|os.O_APPEND, 0)
	case "created":
		return w.OpenFile("f", os.O_RDWR|os.O_CREATE, 0o644)
	case "normalizer":
		return vroot.NewPathNormalizerFs(w).OpenFile("d/../f", os.O_RDWR, 0)
	}
	return w.OpenFile("f", os.O_RDWR, 0)
}

func levelName(l vroot.LockLevel) string {
	return map[vroot.LockLevel]string{0: "nothing", vroot.LockShared: "shared", vroot.LockExclusive: "exclusive"}[l]
}

// free tells that a may be granted l next to what the others hold.
func (w *lockWorld) free(a *lockActor, l vroot.LockLevel) bool {
	for _, b := range w.as {
		if b != a && (b.holds == vroot.LockExclusive || b.holds != 0 && l == vroot.LockExclusive) {
			return false
		}
	}
	return true
}

// queued counts the kernel's waiters on the file; -1: it does not tell.
func (w *lockWorld) queued() int {
	b, err := os.ReadFile("/proc/locks")
	if err != nil {
		return -1
	}
	n := 0
	for _, l := range bytes.Split(b, []byte("\n")) {
		if bytes.Contains(l, []byte(" -> ")) && bytes.Contains(l, []byte(w.inode)) {
			n++
		}
	}
	return n
}

// settle waits until every call in flight has returned or has to wait.
func (w *lockWorld) settle() {
	const patience = 20 * time.Second
	start := time.Now()
	for {
		waiters, grantable := 0, (*lockActor)(nil)
		for i, a := range w.as {
			if !a.waiting {
				continue
			}
			select {
			case err := <-a.done:
				a.waiting = false
				w.c.Logf("h%d lock %s: %v", i, levelName(a.wants), err)
				if err != nil {
					w.c.Fail("lock", "%s: locking fails: %v", w, err)
				}
				if !w.free(a, a.wants) {
					w.c.Fail("excl", "%s: h%d is given the %s lock", w, i, levelName(a.wants))
				}
				a.holds = a.wants
				continue
			default:
			}
			waiters++
			if w.free(a, a.wants) {
				grantable = a
			}
		}
		took := time.Since(start)
		switch {
		case grantable != nil:
			if took > patience {
				w.c.Fail("stuck", "%s: a lock nobody stands against is not given", w)
			}
		case waiters == 0:
			return
		default:
			// Whoever has to wait has got so far.
			if q := w.queued(); q == waiters || took > 200*time.Millisecond {
				return
			}
		}
		time.Sleep(20 * time.Microsecond)
	}
}

func (w *lockWorld) String() string {
	var b strings.Builder
	b.WriteString(w.c.History() + "; held:")
	for i, a := range w.as {
		fmt.Fprintf(&b, " h%d(%s) %s", i, a.how, levelName(a.holds))
		if a.waiting {
			b.WriteString(" waiting for " + levelName(a.wants))
		}
	}
	return b.String()
}

// look asks the kernel what is held.
func (w *lockWorld) look() {
	try := func(how int) bool {
		err := syscall.Flock(w.probe, how|syscall.LOCK_NB)
		if err == nil {
			_ = syscall.Flock(w.probe, syscall.LOCK_UN)
		}
		return err == nil
	}
	any, excl := false, false
	for _, a := range w.as {
		any = any || a.holds != 0
		excl = excl || a.holds == vroot.LockExclusive
	}
	if got := !try(syscall.LOCK_SH); got != excl {
		w.c.Fail("held", "%s: others are kept from sharing: %v", w, got)
	}
	if got := !try(syscall.LOCK_EX); got != any {
		w.c.Fail("held", "%s: others are kept from the exclusive lock: %v", w, got)
	}
}

func (w *lockWorld) end() {
	// Whatever is in flight comes back once nobody holds anything.
	for range w.as {
		for _, a := range w.as {
			if !a.waiting && !a.closed {
				_ = a.f.Close()
				a.closed = true
			}
		}
		for _, a := range w.as {
			if a.waiting {
				select {
				case <-a.done:
					a.waiting = false
				case <-time.After(50 * time.Millisecond):
				}
			}
		}
	}
	_ = syscall.Close(w.probe)
	dropDir(w.dir)
}

func locking(views []string, handles, depth int, dedup, kinds bool) func(c *core.C) {
	return func(c *core.C) {
		w := &lockWorld{c: c, dir: scratchDir()}
		f := filepath.Join(w.dir, "f")
		if os.WriteFile(f, []byte("x"), 0o644) != nil || os.Mkdir(filepath.Join(w.dir, "d"), 0o755) != nil || os.Link(f, filepath.Join(w.dir, "d", "g")) != nil {
			panic("seeding")
		}
		fi, err := os.Stat(f)
		if err != nil {
			panic(err)
		}
		w.inode = ":" + strconv.FormatUint(fi.Sys().(*syscall.Stat_t).Ino, 10) + " "
		if w.probe, err = syscall.Open(f, syscall.O_RDONLY|syscall.O_CLOEXEC, 0); err != nil {
			panic(err)
		}
		defer w.end()
		state := ""
		for i := range handles {
			how := views[0]
			if i > 0 {
				how = views[c.Choose(len(views))]
			}
			h, err := openLocked(w.dir, how)
			if err != nil {
				c.Fail("open", "opening through %s: %v", how, err)
			}
			l, ok := h.(vroot.Locker)
			if !ok {
				_ = h.Close()
				c.Fail("locker", "files opened through %s do not lock", how)
			}
			w.as = append(w.as, &lockActor{how: how, f: h, l: l})
			state += how + ";"
		}
		size, mode := int64(1), fs.FileMode(0o644)
		if kinds {
			switch c.Choose(4) {
			case 1:
				size = 0
			case 2:
				mode = 0o444
			case 3:
				size, mode = 1<<20, 0
			}
			if os.Truncate(f, size) != nil || os.Chmod(f, mode) != nil {
				panic("seeding")
			}
		}
		for i := range depth {
			if dedup {
				s := state
				for _, a := range w.as {
					s += fmt.Sprint(a.holds, a.wants, a.waiting, a.closed, ";")
				}
				if !c.Visit(s, depth-i) {
					return
				}
			}
			n := c.Choose(handles)
			a := w.as[n]
			if a.waiting {
				c.Prune()
			}
			k := c.Choose(6)
			c.Step()
			switch {
			case k == 5:
				for _, l := range []vroot.LockLevel{-1, 0, 3, syscall.LOCK_EX | syscall.LOCK_UN} {
					if err := a.l.Lock(l); err == nil {
						c.Fail("level", "%s: h%d: lock level %d is no error", w, n, l)
					}
				}
				c.Logf("h%d lock at no level", n)
			case k == 4:
				name := filepath.Join(w.dir, "f")
				to := name + "2"
				if _, err := os.Lstat(to); err == nil {
					name, to = to, name
				}
				// The lock goes with the file, whatever it is called.
				if n != 0 {
					c.Prune()
				}
				c.Logf("rename %s", filepath.Base(name))
				if err := os.Rename(name, to); err != nil {
					panic(err)
				}
			case k == 3:
				err := a.f.Close()
				c.Logf("h%d close: %v", n, err)
				if (err == nil) == a.closed {
					c.Fail("close", "%s: close gives %v", w, err)
				}
				a.closed, a.holds = true, 0
			case a.closed:
				var err error
				if k == 2 {
					err = a.l.Unlock()
				} else {
					err = a.l.Lock(vroot.LockLevel(1 + k))
				}
				c.Logf("h%d after close: %v", n, err)
				if err == nil {
					c.Fail("closed", "%s: a closed file is locked or unlocked without an error", w)
				}
			case k == 2:
				err := a.l.Unlock()
				c.Logf("h%d unlock: %v", n, err)
				if err != nil {
					c.Fail("unlock", "%s: unlocking fails: %v", w, err)
				}
				a.holds = 0
			default:
				a.wants = vroot.LockLevel(1 + k)
				old := a.holds
				if old != a.wants {
					// A conversion may let go of what it had first.
					a.holds = 0
				}
				c.Logf("h%d lock %s over %s", n, levelName(a.wants), levelName(old))
				done, level := make(chan error, 1), a.wants
				a.done, a.waiting = done, true
				go func() { done <- a.l.Lock(level) }()
			}
			w.settle()
			w.look()
			c.Fresh()
		}
		// What everyone wrote down is still one file.
		for i, a := range w.as {
			if a.waiting || a.closed {
				continue
			}
			if st, err := a.f.Stat(); err != nil || st.Size() != size || st.Mode() != mode {
				c.Fail("file", "%s: h%d: %v", w, i, err)
			}
		}
	}
}

func init() {
	core.Register(&core.Property{
		ID: "V10", Unpriv: true,
		Init: func() error { syscall.Umask(0o022); return nil },
		Rule: "for every sequence of locking, converting, unlocking and closing by the handles' users, with every call in flight at once that has to wait, whoever is given a lock is compatible with everyone who has one, a lock nobody stands against is given, and the kernel, asked through a descriptor of its own, reports what the model holds",
		Assumptions: []string{
			"Linux, flock(2), one machine; a conversion that has to wait may let go of what it had",
			"a handle is not closed or unlocked while its own lock call waits",
			"which of several waiters is given a lock first is not specified",
		},
		Scenarios: func(th bool) []core.Scenario {
			d := 0
			if th {
				d = 1
			}
			return []core.Scenario{
				{Name: "two handles", Bound: fmt.Sprintf("%d ways to open, 4 kinds of file, every sequence of %d calls", len(lockViews), 3+d), Body: locking(lockViews, 2, 3+d, false, true)},
				{Name: "three handles", Bound: fmt.Sprintf("every sequence of %d calls", 4+d), Body: locking(lockViews[:1], 3, 4+d, false, false)},
				{Name: "three handles, states", Bound: fmt.Sprintf("3 ways to open, every state reached within %d calls", 5+2*d), Body: locking(lockViews[:3], 3, 5+2*d, true, false)},
				{Name: "four handles, states", Bound: fmt.Sprintf("every state reached within %d calls", 5+2*d), Body: locking(lockViews[:1], 4, 5+2*d, true, false)},
			}
		},
	})
}
