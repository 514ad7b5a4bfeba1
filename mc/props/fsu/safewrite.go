package fsu

import (
	"errors"
	"io"
	"io/fs"
	"path"
	"strings"
	"testing/fstest"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

type fsT = vroot.Fs[vroot.File]
type swOpt = fsutil.SafeWriteOption[fsT, vroot.File]
type policyT = fsutil.TempFilePolicy[fsT, vroot.File]

// decoys must survive every cleanup: none is a name either policy makes.
var decoys = map[string]string{
	"t.txt.12345.tmp":       "decoy",
	"t.txt.01234567890.tmp": "decoy",
	"t.txt.0123456789":      "decoy",
	"0123456789.tmp":        "decoy",
	"t.txt.012345678a.tmp":  "decoy",
	".0123456789.tmp":       "decoy",
	"d/keep":                "decoy",
	"tmpx/0123456789.tmp":   "decoy",
}

func safeWrite(faults int, crash, power bool, kinds []string) func(c *core.C) {
	return func(c *core.C) {
		f := reffs.New()
		for k, v := range decoys {
			f.Put(k, v, 0o644)
		}
		name := core.Pick(c, "t.txt", "d/t.txt", "./t.txt")
		clean := path.Clean(name)
		kind := core.Pick(c, kinds...)
		old := "absent"
		const oldData = "OLD!"
		if kind == "copyfs" {
			if k := c.Choose(3); k > 0 {
				_ = f.Mkdir(clean, 0o755)
				old = "emptydir"
				if k == 2 {
					f.Put(clean+"/kept", "kept", 0o644)
					old = "fulldir"
				}
			}
		} else {
			switch c.Choose(3) {
			case 1:
				f.Put(clean, oldData, 0o600)
				old = "file"
			case 2:
				f.Put("victim", oldData, 0o600)
				_ = f.Symlink(map[bool]string{true: "../victim", false: "victim"}[path.Dir(clean) == "d"], clean)
				old = "link"
			}
		}
		usePolicy := c.Choose(3)
		var policy policyT
		tmpDir := ""
		switch usePolicy {
		case 0: // nil: the random policy
		case 1:
			policy = fsutil.NewTempFilePolicyDir[fsT, vroot.File]("tmp")
			tmpDir = "tmp"
		case 2:
			f.Put("tmp/keep", "decoy", 0o644)
			f.Put("tmp/x.0123456789.tmp", "decoy", 0o644)
			policy = fsutil.NewTempFilePolicyDir[fsT, vroot.File]("tmp")
			tmpDir = "tmp"
		}
		var clp policyT = fsutil.NewTempFilePolicyRandom[fsT, vroot.File]()
		if policy != nil {
			clp = policy
		}
		before := dumpMap(f)
		data := core.Pick(c, "", "n", "new data")
		perm := core.Pick(c, fs.FileMode(0o644), 0o600)
		in := &injector{c: c, fs: f, left: faults, crash: crash, lateOps: "rename;"}
		in.skip = func(op reffs.Op) bool { return op.Name == "stat" || op.Name == "lstat" || op.Name == "f.stat" }

		var order []string
		fail := ""
		if faults > 0 || c.Bool() {
			if k := c.Choose(8); k > 0 {
				fail = []string{"optpre", "pre", "post", "optpost", "reader", "writer", "srcfs"}[k-1]
				if fail == "reader" && kind != "copy" || fail == "writer" && kind != "write" || fail == "srcfs" && kind != "copyfs" {
					c.Prune()
				}
			}
		}
		hook := func(label string) func(vroot.File, string) error {
			return func(h vroot.File, p string) error {
				order = append(order, label)
				if p != name {
					c.Fail("hook-path", "hook got path %q, want %q", p, name)
				}
				if label == "post" || label == "optpost" {
					if kind != "copyfs" {
						n, _ := h.Stat()
						if n != nil && fail == "" && len(in.faults) == 0 && !in.crashed && n.Size() != int64(len(data)) {
							c.Fail("hook-order", "a post hook ran before the data was written")
						}
					}
				}
				if fail == label {
					return errFault
				}
				return nil
			}
		}
		opt := swOpt{TempFilePolicy: policy, PreHooks: []func(vroot.File, string) error{hook("optpre")}, PostHooks: []func(vroot.File, string) error{hook("optpost")}}
		sync := power || c.Bool()
		if sync {
			opt.PostHooks = append(opt.PostHooks, fsutil.SyncHook[vroot.File])
		}
		if !power {
			opt.IgnoreCloseErr = c.Bool()
		}
		c.Logf("%s %q policy=%d old=%s data=%q fail=%q sync=%v ignoreClose=%v", kind, name, usePolicy, old, data, fail, sync, opt.IgnoreCloseErr)
		c.Step()

		src := fstest.MapFS{"a": {Data: []byte(data), Mode: perm}, "s/b": {Data: []byte("b"), Mode: 0o600}}
		isNew := func() bool {
			if kind == "copyfs" {
				m := dumpMap(f)
				return m[clean+"/a"] == "file "+perm.String()+" "+data && m[clean+"/s/b"] == "file "+fs.FileMode(0o600).String()+" b" && countUnder(m, clean) == 3
			}
			n, ok := dumpMap(f)[clean]
			return ok && n == "file "+(perm|0o200).String()+" "+data
		}
		isOld := func() bool {
			m := dumpMap(f)
			return m[clean] == before[clean] && countUnder(m, clean) == countUnder(before, clean) && m[clean+"/kept"] == before[clean+"/kept"]
		}
		in.always = func() {
			if !isOld() && !isNew() {
				c.Fail("torn-target", "the target is neither the old nor the complete new content: %q", dumpMap(f)[clean])
			}
		}
		in.install()
		var err error
		pre, post := []func(vroot.File, string) error{hook("pre")}, []func(vroot.File, string) error{hook("post")}
		switch kind {
		case "write":
			err = opt.Write(f, name, func(w io.Writer) error {
				for i := 0; i < len(data); i += 3 {
					if _, err := io.WriteString(w, data[i:min(i+3, len(data))]); err != nil {
						return err
					}
				}
				if fail == "writer" {
					return errFault
				}
				return nil
			}, perm, pre, post)
		case "copy":
			r := &shortReader{data: data, err: io.EOF, step: 3}
			if fail == "reader" {
				r.data, r.err = data[:len(data)/2], errFault
				r.both = c.Bool()
			}
			err = opt.Copy(f, name, r, perm, pre, post)
		case "copyfs":
			var s fs.FS = src
			if fail == "srcfs" {
				s = failFS{src}
			}
			err = opt.CopyFs(f, name, s, perm|0o100, pre, post)
		}
		in.remove()
		c.Logf("err=%v faults=%v", err, in.faults)

		if power && in.crashed {
			// Whatever was not synced is gone; the directory survives in order.
			loseUnsynced(f.Root, f)
		}
		okOld, okNew := isOld(), isNew()
		if !okOld && !okNew {
			c.Fail("torn-target", "the target is neither the old nor the complete new content: %q", dumpMap(f)[clean])
		}
		late := len(in.faults) > 0 && strings.HasPrefix(in.faults[len(in.faults)-1], "late rename")
		if err == nil && !in.crashed {
			if !okNew {
				c.Fail("success-without-data", "success was reported but the target is %q", dumpMap(f)[clean])
			}
			if fail != "" {
				c.Fail("error-swallowed", "a failing %s was reported as success", fail)
			}
			for _, ft := range in.faults {
				if ft != "f.close" || !opt.IgnoreCloseErr {
					if ft == "removeall" {
						continue
					}
					if kind == "copyfs" && ft == "f.close" {
						continue // the content's own close is CopyFs's business (F03)
					}
					c.Fail("error-swallowed", "a failing %s was reported as success", ft)
				}
			}
			if got := strings.Join(order, ","); got != "optpre,pre,post,optpost" {
				c.Fail("hook-order", "hooks ran as %s", got)
			}
		}
		if err != nil && !in.crashed {
			if !okOld && !late {
				c.Fail("failed-but-changed", "the call failed but the target changed")
			}
			if (fail != "" || len(in.faults) > 0) && old != "fulldir" && !errors.Is(err, errFault) {
				c.Fail("cause-lost", "the cause is gone from %v", err)
			}
			if fail == "" && len(in.faults) == 0 && old != "fulldir" {
				c.Fail("spurious-error", "%v", err)
			}
		}
		if f.Open_ != 0 && !in.crashed {
			c.Fail("handle-leak", "%d handles left open", f.Open_)
		}
		own := func(p string) bool {
			return p == clean || strings.HasPrefix(p, clean+"/") || p == tmpDir && before[p] == ""
		}
		noCleanup := false
		for _, ft := range in.faults {
			noCleanup = noCleanup || ft == "removeall"
		}
		if !in.crashed && !noCleanup {
			if d := diff(before, dumpMap(f), own); d != "" {
				c.Fail("litter", "outside the target: %s", d)
			}
		}
		// Leftovers are exactly what the policy recognises, and its walk removes
		// them and nothing else.
		werr := fs.WalkDir(vroot.ToIoFs[vroot.File](f), ".", func(p string, d fs.DirEntry, err error) error {
			return clp.WalkFunc(f, p, d, err)
		})
		if werr != nil {
			c.Fail("cleanup-error", "cleanup walk: %v", werr)
		}
		if d := diff(before, dumpMap(f), own); d != "" {
			c.Fail("cleanup", "after the cleanup walk: %s", d)
		}
		if !isOld() && !isNew() {
			c.Fail("cleanup-target", "the cleanup walk damaged the target")
		}
		if in.crashed {
			c.Outcome("crashed")
		} else if err != nil {
			c.Outcome("failed")
		} else {
			c.Outcome("done")
		}
		c.Distinct(c.History())
	}
}

// nested runs a second complete write of the same name at every point of a
// first one.
func nested(c *core.C) {
	f := reffs.New()
	if c.Bool() {
		f.Put("t.txt", "OLD", 0o644)
	}
	before := dumpMap(f)
	var policy policyT
	if c.Bool() {
		policy = fsutil.NewTempFilePolicyDir[fsT, vroot.File]("tmp")
	}
	opt := swOpt{TempFilePolicy: policy}
	ran, renamed := false, false
	last := ""
	failB := c.Bool()
	f.Before = func(op reffs.Op) (int, error) {
		if op.Name == "rename" {
			defer func() { last, renamed = "AAAA", true }()
		}
		m := dumpMap(f)["t.txt"]
		if m != before["t.txt"] && m != "file -rw-r--r-- AAAA" && m != "file -rw-r--r-- BBBBBB" {
			c.Fail("torn-target", "target is %q", m)
		}
		if ran || !c.Bool() {
			return 0, nil
		}
		ran = true
		hook := f.Before
		f.Before = nil
		c.Logf("second write at %s(%s)", op.Name, op.Path)
		r := &shortReader{data: "BBBBBB", err: io.EOF, step: 2}
		if failB {
			r.data, r.err = "BB", errFault
		}
		err := opt.Copy(f, "t.txt", r, 0o644, nil, nil)
		if (err != nil) != failB {
			c.Fail("interference", "the second write: %v", err)
		}
		if !failB {
			last = "BBBBBB"
		}
		f.Before = hook
		return 0, nil
	}
	failA := c.Bool()
	r := &shortReader{data: "AAAA", err: io.EOF, step: 2}
	if failA {
		r.data, r.err = "AA", errFault
	}
	c.Step()
	err := opt.Copy(f, "t.txt", r, 0o644, nil, nil)
	f.Before = nil
	if (err != nil) != failA {
		c.Fail("interference", "the first write: %v", err)
	}
	want := before["t.txt"]
	if last != "" {
		want = "file -rw-r--r-- " + last
	}
	if got := dumpMap(f)["t.txt"]; got != want || renamed == failA {
		c.Fail("lost-write", "target is %q, want %q", got, want)
	}
	if d := diff(before, dumpMap(f), func(p string) bool { return p == "t.txt" || p == "tmp" }); d != "" {
		c.Fail("litter", "%s", d)
	}
	c.Distinct(c.History())
}

func countUnder(m map[string]string, dir string) int {
	n := 0
	for k := range m {
		if strings.HasPrefix(k, dir+"/") {
			n++
		}
	}
	return n
}

func loseUnsynced(n *reffs.Node, f *reffs.FS) {
	for _, k := range n.Kids {
		if k.Mode.IsDir() {
			loseUnsynced(k, f)
		} else if k.Mode.IsRegular() {
			k.Data = append([]byte(nil), k.Synced...)
		}
	}
}

// failFS fails reading the last file.
type failFS struct{ fstest.MapFS }

func (f failFS) Open(n string) (fs.File, error) {
	if n == "s/b" {
		return nil, &fs.PathError{Op: "open", Path: n, Err: errFault}
	}
	return f.MapFS.Open(n)
}

func init() {
	core.Register(&core.Property{
		ID: "F01",
		Rule: "every combination of target state, temp-file policy, content, hooks and failing party with every placement of file system faults, torn writes, " +
			"late rename failures and a crash (optionally losing unsynced data); the target is inspected at every single operation",
		Assumptions: []string{"rename within the file system is atomic; the crash model keeps completed directory operations in order", "power loss is only survived with SyncHook, which the check then installs"},
		Scenarios: func(th bool) []core.Scenario {
			w := []string{"write", "copy"}
			n := 1
			if th {
				n = 2
			}
			return []core.Scenario{
				{Name: "file-faults", Bound: "Write and Copy; 1 fault (2 thorough)", Body: safeWrite(n, false, false, w)},
				{Name: "file-crash", Bound: "Write and Copy; one fault and one crash point", Body: safeWrite(n-1, true, false, w)},
				{Name: "file-power", Bound: "Write and Copy with SyncHook; power loss at every operation", Body: safeWrite(n-1, true, true, w)},
				{Name: "nested", Bound: "a complete second write of the same name at every point of a first", Body: nested},
				{Name: "dir-faults", Bound: "CopyFs; 1 fault", Body: safeWrite(1, false, false, []string{"copyfs"})},
				{Name: "dir-crash", Bound: "CopyFs; one crash point", Body: safeWrite(n-1, true, false, []string{"copyfs"})},
			}
		},
	})
}
