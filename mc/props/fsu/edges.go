package fsu

import (
	"context"
	"errors"
	"io"
	"os"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// moving pushes a local file that is replaced, shortened or grown at any call
// made on it, or one of whose calls fails: what is committed is still what some
// file of that name held, whole, and of the declared size.
func moving(sessions int) func(c *core.C) {
	return func(c *core.C) {
		vers := versions(c)
		f := reffs.New()
		local := reffs.New()
		local.Put("l", vers[0], 0o644)
		held := map[string]bool{vers[0]: true} // what the name has held
		replaced, changed := false, false
		for s := 0; s < sessions; s++ {
			c.Step()
			info := fsutil.ContentInfo{Size: -1}
			if cur, _ := local.Get("l"); c.Bool() {
				info.Size = int64(len(cur))
			}
			at, what := c.Choose(7), 0
			if at > 0 {
				what = c.Choose(4)
			}
			c.Logf("push size=%d, before call %d: %d (0 fails, 1 replaced, 2 shortened, 3 grown)", info.Size, at, what)
			n, failed := 0, ""
			local.Before = func(op reffs.Op) (int, error) {
				if n++; n != at {
					return 0, nil
				}
				save := local.Before
				local.Before = nil
				defer func() { local.Before = save }()
				c.Logf("at %s", op.Name)
				switch what {
				case 0:
					failed = op.Name
					return 0, errFault
				case 1:
					local.Put("new", vers[1], 0o644)
					if err := local.Rename("new", "l"); err != nil {
						panic(err)
					}
					held[vers[1]], replaced = true, true
				case 2, 3:
					h, err := local.OpenFile("l", os.O_RDWR, 0)
					if err != nil {
						panic(err)
					}
					cur, _ := local.Get("l")
					if what == 2 {
						_ = h.Truncate(int64(len(cur) / 2))
						cur = cur[:len(cur)/2]
					} else {
						_, _ = h.WriteAt([]byte("++"), int64(len(cur)))
						cur += "++"
					}
					_ = h.Close()
					held[cur], changed = true, true
				}
				return 0, nil
			}
			sink := fsutil.NewFsSink[fsT, vroot.File](f, "f", 0o600)
			before, hadOK := f.Get("f")
			err := rcOpt{}.Push(context.Background(), local, "l", &watchSink{c: c, s: sink, loose: new(bool), max: 2}, info)
			local.Before = nil
			c.Logf("-> %v", err)
			got, ok := f.Get("f")
			if local.Open_ != 0 || f.Open_ != 0 {
				c.Fail("handle-leak", "%d and %d handles left open", local.Open_, f.Open_)
			}
			if hadOK {
				if got != before {
					c.Fail("committed-changed", "from %q to %q", before, got)
				}
				return
			}
			if failed != "" && failed != "f.close" && !errors.Is(err, errFault) {
				c.Fail("fault-swallowed", "a failing %s of the local file: %v", failed, err)
			}
			if (err == nil) != ok {
				c.Fail("success-without-data", "Push gives %v, committed: %v", err, ok)
			}
			if !ok {
				continue
			}
			if info.Size >= 0 && int64(len(got)) != info.Size {
				c.Fail("unexpected-size", "declared %d bytes, committed %q", info.Size, got)
			}
			// Without identities a part is continued by size, which mixes what
			// the file held in different sessions.
			if !held[got] && !(s > 0 && (replaced || changed)) {
				c.Fail("mixed-versions", "the file held %q, committed %q", held, got)
			}
			return
		}
	}
}

// faultySource is an FsSource whose file system fails or is replaced under it.
func faultySource(c *core.C) {
	vers := versions(c)
	f, o := reffs.New(), reffs.New()
	o.Put("o", vers[0], 0o644)
	part := core.Pick(c, "", "a", "ab", "abcd", "abcdefghij")
	if part != "" {
		f.Put("f.part", part, 0o644)
		if c.Bool() {
			f.Put("f.part.etag", core.Pick(c, "A", "B"), 0o644)
		}
	}
	etag := core.Pick(c, "", "A")
	exp := fsutil.ContentInfo{ETag: core.Pick(c, "", "A"), Size: core.Pick(c, int64(-1), int64(len(vers[0])))}
	at, what := c.Choose(8), 0
	if at > 0 {
		what = c.Choose(2)
	}
	side, hasSide := f.Get("f.part.etag")
	c.Logf("part %q sidecar %q, source etag %q, expected %+v, before call %d: %d", part, side, etag, exp, at, what)
	n, failed, swapped := 0, "", false
	o.Before = func(op reffs.Op) (int, error) {
		if n++; n != at {
			return 0, nil
		}
		c.Logf("at %s", op.Name)
		if what == 0 {
			failed = op.Name
			return 0, errFault
		}
		o.Before = nil
		o.Put("new", vers[1], 0o644)
		if err := o.Rename("new", "o"); err != nil {
			panic(err)
		}
		swapped = true
		return 0, nil
	}
	c.Step()
	err := rcOpt{BufSize: 2}.Pull(context.Background(), f, "f", fsutil.NewFsSource[fsT, vroot.File](o, "o", etag), exp, 0o640)
	c.Logf("-> %v", err)
	got, ok := f.Get("f")
	if o.Open_ != 0 || f.Open_ != 0 {
		c.Fail("handle-leak", "%d and %d handles left open", o.Open_, f.Open_)
	}
	if (err == nil) != ok {
		c.Fail("success-without-data", "Pull gives %v, committed: %v", err, ok)
	}
	if failed != "" && failed != "f.close" && !errors.Is(err, errFault) {
		c.Fail("fault-swallowed", "a failing %s of the source: %v", failed, err)
	}
	if failed == "" && !swapped && err != nil && !(part == "abcdefghij" && etag == "") {
		c.Fail("stuck", "%v", err)
	}
	if failed != "" && failed != "f.close" {
		// What was there is still there to be continued, unless given up for the source's sake.
		if now, ok := f.Get("f.part"); !ok && part != "" && hasSide && side == "A" && part == "abcd"[:min(4, len(part))] && len(part) <= 4 {
			c.Fail("progress-lost", "the part %q is gone (%q)", part, now)
		}
	}
	if !ok {
		return
	}
	if exp.Size >= 0 && int64(len(got)) != exp.Size {
		c.Fail("unexpected-size", "expected %d bytes, committed %q", exp.Size, got)
	}
	trusted := etag == "A" && (side == "A" || side == "" && exp.ETag == "A")
	if part != "" && (etag == "" || trusted) && got != vers[0] {
		c.Outcome("size-based or wrongly named")
		return // continued by size, or the part was not what its sidecar says
	}
	if got != vers[0] && !(swapped && got == vers[1]) {
		c.Fail("mixed-versions", "committed %q of %q", got, vers)
	}
	if n, _ := f.Lstat("f"); n.Mode().Perm() != 0o640 && part == "" {
		c.Fail("mode", "committed with mode %v", n.Mode())
	}
}

// present pulls or pushes with every state of the target, of the part and of
// its sidecar, under every suffix, and with files of similar names around.
func present(c *core.C) {
	f := reffs.New()
	suffix := core.Pick(c, "", ".tmp", ".part")
	use := suffix
	if use == "" {
		use = ".part"
	}
	others := map[string]string{"f.part2": "o", "g": "o", "g.part": "o", "f.etag": "o", "f.bak": "o"}
	if use == ".tmp" {
		others["f.part"], others["f.part.etag"] = "ab", "A"
	} else {
		others["f.tmp"], others["f.tmp.etag"] = "ab", "A"
	}
	for k, v := range others {
		f.Put(k, v, 0o644)
	}
	final := core.Pick(c, "", "abcd", "abc", "WXYZ")
	if final != "" {
		f.Put("f", final, 0o600)
	}
	part := core.Pick(c, "", "ab", "abcd", "abcdef")
	if part != "" {
		f.Put("f"+use, part, 0o644)
		if s := core.Pick(c, "", "A", "B"); s != "" {
			f.Put("f"+use+".etag", s, 0o644)
		}
	}
	exp := fsutil.ContentInfo{ETag: core.Pick(c, "", "A", "B"), Size: core.Pick(c, int64(-1), int64(4), int64(3))}
	r := &presentSource{info: fsutil.ContentInfo{ETag: core.Pick(c, "", "A"), Size: core.Pick(c, int64(-1), int64(4))}, failAt: c.Choose(3)}
	side, _ := f.Get("f" + use + ".etag")
	c.Logf("suffix %q, final %q, part %q sidecar %q, expected %+v, source %+v failing at open %d", suffix, final, part, side, exp, r.info, r.failAt)
	c.Step()
	opt := rcOpt{BufSize: 2, PartSuffix: suffix}
	hooked := ""
	opt.PreCommitHooks = append(opt.PreCommitHooks, func(h vroot.File, p string) error {
		b, err := io.ReadAll(h)
		hooked = p + "=" + string(b)
		return err
	})
	err := opt.Pull(context.Background(), f, "f", r, exp, 0o644)
	c.Logf("-> %v", err)
	got, ok := f.Get("f")
	for k, v := range others {
		if now, _ := f.Get(k); now != v {
			c.Fail("bystander", "%s held %q, holds %q", k, v, now)
		}
	}
	if r.open != 0 || f.Open_ != 0 {
		c.Fail("handle-leak", "%d sources and %d handles left open", r.open, f.Open_)
	}
	if final != "" {
		if got != final || r.opens > 0 {
			c.Fail("committed-changed", "from %q to %q, %d opens of the source", final, got, r.opens)
		}
		if mism := exp.Size >= 0 && int(exp.Size) != len(final); mism != errors.Is(err, fsutil.ErrSizeMismatch) || mism != (err != nil) {
			c.Fail("size-conflict", "a committed file of %d bytes, %d expected: %v", len(final), exp.Size, err)
		}
		return
	}
	if (err == nil) != ok {
		c.Fail("success-without-data", "Pull gives %v, committed: %v", err, ok)
	}
	if r.failed && !errors.Is(err, errFault) {
		c.Fail("fault-swallowed", "a failing open of the source: %v", err)
	}
	conflict := exp.ETag == "B" && r.info.ETag == "A"
	mism := exp.Size == 3 && r.info.Size == 4
	switch {
	case r.failed:
	case conflict && !errors.Is(err, fsutil.ErrContentChanged):
		c.Fail("unexpected-version", "asked for B, given A: %v", err)
	case !conflict && mism && !errors.Is(err, fsutil.ErrSizeMismatch):
		c.Fail("size-conflict", "asked for 3 bytes, offered 4: %v", err)
	}
	if !ok {
		return
	}
	if conflict || exp.Size >= 0 && int(exp.Size) != len(got) {
		c.Fail("unexpected-size", "expected %+v, committed %q", exp, got)
	}
	if hooked != "f"+use+"="+got {
		c.Fail("hook", "the hook saw %q, committed %q", hooked, got)
	}
	for _, n := range []string{"f" + use, "f" + use + ".etag"} {
		if _, ok := f.Get(n); ok {
			c.Fail("litter", "%s outlived the commit", n)
		}
	}
	// A part that is a prefix of the source is what a trusted one is; one that is
	// not may be kept only where nothing tells it is of another version.
	if got != "abcd" && (part != "abcdef" || side == "B" && (r.info.ETag == "A" || exp.ETag == "A")) {
		c.Fail("mixed-versions", "committed %q", got)
	}
}

type presentSource struct {
	info                fsutil.ContentInfo
	failAt, opens, open int
	failed              bool
}

func (s *presentSource) Open(_ context.Context, off int64) (io.ReadCloser, fsutil.ContentInfo, error) {
	if s.opens++; s.opens == s.failAt {
		s.failed = true
		return nil, fsutil.ContentInfo{}, errFault
	}
	s.open++
	return &presentReader{shortReader{data: "abcd"[min(off, 4):], err: io.EOF, step: 2}, s}, s.info, nil
}

type presentReader struct {
	shortReader
	s *presentSource
}

func (r *presentReader) Close() error { r.s.open--; return nil }
