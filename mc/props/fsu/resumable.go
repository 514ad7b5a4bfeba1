package fsu

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

type rcOpt = fsutil.ResumableCopyOption[fsT, vroot.File]

// remote is the source side of a Pull: one of two versions of an object.
type remote struct {
	c      *core.C
	fs     *reffs.FS // the destination, to see what a resume rests on
	vers   [2]string
	ver    int
	etag   bool
	size   bool
	cut    int // the stream fails after cut bytes; -1 never
	clean  bool
	flip   bool // the object changes after the first Open of a session
	opens  int
	open   int
	last   int64 // the offset asked for last
	expect string
	anon   *bool // the part holds bytes nobody gave an identity for
	resume *bool // set when a transfer was continued without both identities
}

// after notes where the bytes of the part came from.
func (r *remote) after() {
	named := r.etag || r.expect != ""
	if p, ok := r.fs.Get("f.part"); !ok || p == "" {
		*r.anon = false
	} else if r.opens > 0 && r.last == 0 {
		*r.anon = !named
	} else if r.opens > 0 {
		*r.anon = *r.anon || !named
	}
}

func etagOf(v int) string { return []string{"A", "B"}[v] }

func (r *remote) Open(_ context.Context, off int64) (io.ReadCloser, fsutil.ContentInfo, error) {
	r.opens++
	r.last = off
	if r.flip && r.opens == 2 {
		r.ver = 1 - r.ver
	}
	info := fsutil.ContentInfo{Size: -1}
	data := r.vers[r.ver]
	if r.size {
		info.Size = int64(len(data))
	}
	if r.etag {
		info.ETag = etagOf(r.ver)
	}
	side, _ := r.fs.Get("f.part.etag")
	if off > 0 && (info.ETag == "" || *r.anon) {
		*r.resume = true
	}
	// The caller vouched for another version than a source without identity has.
	if info.ETag == "" && r.expect != "" && r.expect != etagOf(r.ver) {
		*r.resume = true
	}
	r.c.Logf("Open(%d) v%d etag=%q sidecar=%q", off, r.ver, info.ETag, side)
	if off > int64(len(data)) {
		off = int64(len(data))
	}
	s := &shortReader{data: data[off:], err: io.EOF, step: 2}
	if r.cut >= 0 && r.cut < len(s.data) {
		s.data = s.data[:r.cut]
		if !r.clean {
			s.err = errFault
		}
	}
	r.open++
	return &rcloser{s, r}, info, nil
}

type rcloser struct {
	io.Reader
	r *remote
}

func (x *rcloser) Close() error { x.r.open--; return nil }

func versions(c *core.C) [2]string {
	return [2]string{"abcd", core.Pick(c, "WXYZ", "WX", "", "WXYZUV")}
}

// checkFinal judges the destination: absent, or one whole version.
func checkFinal(c *core.C, f *reffs.FS, vers [2]string, loose bool, where string) (string, bool) {
	got, ok := f.Get("f")
	if ok && !loose && got != vers[0] && got != vers[1] {
		c.Fail("mixed-versions", "%s: the committed content is %q, no version of the object (%q)", where, got, vers)
	}
	return got, ok
}

func pull(sessions, faults int, crash, small bool) func(c *core.C) {
	return func(c *core.C) {
		f := reffs.New()
		vers := versions(c)
		loose, anon := false, false
		in := &injector{c: c, fs: f, left: faults, crash: crash}
		in.always = func() { checkFinal(c, f, vers, loose, "during") }
		for s := 0; s < sessions; s++ {
			c.Step()
			r := &remote{c: c, fs: f, vers: vers, resume: &loose, anon: &anon, cut: -1}
			r.ver = c.Choose(2)
			idents, cuts, exps := 3, 6, 4
			if small {
				idents, cuts, exps = 2, 3, 2
			}
			switch c.Choose(idents) {
			case 0:
				r.etag, r.size = true, true
			case 1:
				r.size = true
			case 2:
				r.etag = true
			}
			switch k := c.Choose(cuts); k {
			case 0, 1, 2:
				r.cut = k
				if small && k == 2 {
					r.cut = -1
					break
				}
				r.clean = !small && r.size && c.Bool()
			case 3:
				r.flip = true
				r.cut = 2*c.Choose(2) - 1 // whole, or one byte
			}
			exp := fsutil.ContentInfo{Size: -1}
			expVer := r.ver
			switch c.Choose(exps) {
			case 1:
				exp.ETag = etagOf(expVer)
			case 2:
				exp.Size = int64(len(vers[expVer]))
			case 3:
				expVer = 1 - expVer
				exp = fsutil.ContentInfo{ETag: etagOf(expVer), Size: int64(len(vers[expVer]))}
			}
			r.expect = exp.ETag
			opt := rcOpt{BufSize: 2}
			hookFails, hooked := false, false
			if s == sessions-1 {
				hookFails = c.Bool()
				opt.PreCommitHooks = append(opt.PreCommitHooks, func(h vroot.File, p string) error {
					b, err := io.ReadAll(h)
					if err != nil && !errors.Is(err, errFault) && !in.crashed {
						c.Fail("hook-read", "%v", err)
					}
					hooked = true
					if err == nil && !loose && string(b) != vers[0] && string(b) != vers[1] {
						c.Fail("mixed-versions", "a hook was shown %q", b)
					}
					if hookFails {
						return errFault
					}
					return err
				})
			}
			had, hadOK := f.Get("f")
			side, _ := f.Get("f.part.etag")
			part, hasPart := f.Get("f.part")
			c.Logf("Pull v%d etag=%v size=%v cut=%d clean=%v flip=%v expect=%+v hookFails=%v part=%q(%v) sidecar=%q", r.ver, r.etag, r.size, r.cut, r.clean, r.flip, exp, hookFails, part, hasPart, side)
			in.install()
			err := opt.Pull(context.Background(), f, "f", r, exp, 0o644)
			nf := len(in.faults)
			in.remove()
			r.after()
			c.Logf("-> %v", err)
			got, ok := checkFinal(c, f, vers, loose, "after")
			if hadOK && (!ok || got != had) {
				c.Fail("committed-changed", "a committed file changed from %q to %q", had, got)
			}
			if r.open != 0 {
				c.Fail("source-leak", "%d source readers left open", r.open)
			}
			if in.crashed {
				in.crashed = false
				f.Open_ = 0
				continue
			}
			if f.Open_ != 0 {
				c.Fail("handle-leak", "%d handles left open", f.Open_)
			}
			if err == nil {
				if !ok {
					c.Fail("success-without-data", "Pull succeeded and there is no file")
				}
				if !hadOK {
					if hookFails {
						c.Fail("hook-ignored", "a failing hook did not stop the commit")
					}
					if s == sessions-1 && !hooked {
						c.Fail("hook-skipped", "Pull committed without its hook")
					}
					if r.last == 0 && got != vers[r.ver] {
						c.Fail("mixed-versions", "the source handed out version %d from its start, committed %q", r.ver, got)
					}
					if exp.ETag != "" && r.etag && (!loose || r.last == 0) && got != vers[expVer] {
						c.Fail("unexpected-version", "asked for version %d, committed %q", expVer, got)
					}
					if exp.Size >= 0 && int64(len(got)) != exp.Size {
						c.Fail("unexpected-size", "asked for %d bytes, committed %d", exp.Size, len(got))
					}
					if r.size && len(got) != len(vers[r.ver]) {
						c.Fail("unexpected-size", "the source said %d bytes, committed %d", len(vers[r.ver]), len(got))
					}
				} else if exp.Size >= 0 && int64(len(had)) != exp.Size {
					c.Fail("size-conflict-ignored", "a committed file of another size was accepted")
				}
				break
			}
			if nf == 0 && hookFails && hooked {
				if _, ok := f.Get("f.part"); ok {
					c.Fail("rejected-part-kept", "a part refused by a hook was kept")
				}
			}
		}
		if _, ok := f.Get("f"); !ok {
			// A well-behaved source gets the transfer done.
			var err error
			r := &remote{c: c, fs: f, vers: vers, ver: c.Choose(2), etag: true, size: true, cut: -1, resume: &loose, anon: &anon}
			how := c.Choose(3)
			useFs := how == 1
			var src fsutil.ResumableSource = r
			if useFs {
				o := reffs.New()
				o.Put("o", vers[r.ver], 0o644)
				src = fsutil.NewFsSource[fsT, vroot.File](o, "o", etagOf(r.ver))
				loose = loose || anon
			}
			exp := fsutil.ContentInfo{Size: -1}
			if how == 2 {
				exp.ETag = etagOf(r.ver)
			}
			r.expect = exp.ETag
			c.Logf("finally v%d expect=%+v fs=%v", r.ver, exp, useFs)
			f.Open_ = 0
			err = rcOpt{BufSize: 16}.Pull(context.Background(), f, "f", src, exp, 0o644)
			got, ok := checkFinal(c, f, vers, loose, "finally")
			if err != nil || !ok || !loose && got != vers[r.ver] {
				part, _ := f.Get("f.part")
				c.Fail("stuck", "a transfer from a well-behaved source: %v, content %q, part %q", err, got, part)
			}
			if _, ok := f.Get("f.part.etag"); ok {
				c.Fail("litter", "the sidecar outlived the commit")
			}
		}
		if loose {
			c.Outcome("size-based resume")
		} else {
			c.Outcome("identified")
		}
		c.Distinct(c.History())
	}
}

func push(sessions, faults int, crash bool) func(c *core.C) {
	return func(c *core.C) {
		f := reffs.New() // the sink's side
		vers := versions(c)
		loose, anon := false, false
		in := &injector{c: c, fs: f, left: faults, crash: crash}
		in.always = func() { checkFinal(c, f, vers, loose, "during") }
		done := false
		for s := 0; s <= sessions; s++ {
			c.Step()
			last := s == sessions
			v := c.Choose(2)
			local := reffs.New()
			local.Put("l", vers[v], 0o644)
			info := fsutil.ContentInfo{Size: -1, ETag: etagOf(v)}
			cut := -1
			if !last {
				if c.Bool() {
					info.ETag = ""
				}
				switch c.Choose(3) {
				case 1:
					info.Size = int64(len(vers[v]))
				case 2:
					info.Size = int64(len(vers[v])) + 1
				}
				cut = c.Choose(4) - 1
			}
			if cut >= 0 {
				n := cut
				local.Before = func(op reffs.Op) (int, error) {
					if op.Name == "f.read" {
						if n == 0 {
							return 0, errFault
						}
						n--
					}
					return 0, nil
				}
			}
			side, _ := f.Get("f.part.etag")
			part, _ := f.Get("f.part")
			had, hadOK := f.Get("f")
			c.Logf("Push v%d %+v cut=%d part=%q sidecar=%q", v, info, cut, part, side)
			sink := fsutil.NewFsSink[fsT, vroot.File](f, "f", 0o600)
			w := &watchSink{c: c, s: sink, side: side, anon: anon, loose: &loose, etag: info.ETag, max: 2}
			if last {
				in.left, in.crash = 0, false
			} else {
				in.install()
			}
			err := rcOpt{}.Push(context.Background(), local, "l", w, info)
			in.remove()
			if p, ok := f.Get("f.part"); !ok || p == "" {
				anon = false
			} else if w.app {
				anon = info.ETag == "" || anon && w.at > 0
			}
			c.Logf("-> %v", err)
			got, ok := checkFinal(c, f, vers, loose, "after")
			if hadOK && (!ok || got != had) {
				c.Fail("committed-changed", "a committed object changed from %q to %q", had, got)
			}
			crashed := in.crashed
			in.crashed = false
			if !crashed && (f.Open_ != 0 || local.Open_ != 0) {
				c.Fail("handle-leak", "%d and %d handles left open", f.Open_, local.Open_)
			}
			f.Open_ = 0
			if info.Size > int64(len(vers[v])) {
				if !errors.Is(err, fsutil.ErrSizeMismatch) || w.calls > 0 {
					c.Fail("size-mismatch", "a wrong declared size: %v after %d sink calls", err, w.calls)
				}
				continue
			}
			if err == nil && !crashed {
				if !ok {
					c.Fail("success-without-data", "Push succeeded and nothing is committed")
				}
				if !hadOK && !loose && got != vers[v] {
					c.Fail("unexpected-version", "pushed %q, committed %q", vers[v], got)
				}
				if _, ok := f.Get("f.part"); ok && !hadOK && len(in.faults) == 0 {
					c.Fail("litter", "a part outlived the commit")
				}
				done = true
			}
			if last && err != nil {
				c.Fail("stuck", "an unhindered Push: %v", err)
			}
		}
		_ = done
		if loose {
			c.Outcome("size-based resume")
		} else {
			c.Outcome("identified")
		}
		c.Distinct(c.History())
	}
}

// sinkOps: the sink by itself, used call by call, keeps what it was given.
func sinkOps(depth int) func(c *core.C) {
	return func(c *core.C) {
		f := reffs.New()
		f.Put("f", "", 0o644)
		_ = f.Remove("f")
		var part, etag, final *string
		str := func(s string) *string { return &s }
		show := func(p *string) string {
			if p == nil {
				return "-"
			}
			return fmt.Sprintf("%q", *p)
		}
		name := core.Pick(c, "f", "d/f")
		suffix := core.Pick(c, "", ".tmp")
		_ = f.Mkdir("d", 0o755)
		sink := fsutil.NewFsSink[fsT, vroot.File](f, name, 0o600)
		sink.PartSuffix = suffix
		if suffix == "" {
			suffix = ".part"
		}
		ctx := context.Background()
		for i := 0; i < depth; i++ {
			c.Step()
			switch c.Choose(3) {
			case 0:
				off := int64(c.Choose(4))
				data := core.Pick(c, "", "x", "yz")
				info := fsutil.ContentInfo{Size: core.Pick(c, int64(-1), off), ETag: core.Pick(c, "", "A", "B")}
				fail := c.Bool()
				rd := &shortReader{data: data, err: io.EOF, step: 2}
				if fail {
					rd.err = errFault
				}
				err := sink.Append(ctx, info, off, rd)
				c.Logf("Append(%+v, %d, %q fail=%v) = %v", info, off, data, fail, err)
				if part == nil {
					part = str("")
				}
				if off > int64(len(*part)) {
					if !errors.Is(err, fsutil.ErrSizeMismatch) {
						c.Fail("sink-gap", "%v", err)
					}
					break
				}
				if info.ETag != "" {
					etag = str(info.ETag)
				} else if off == 0 {
					etag = nil
				}
				part = str((*part)[:off] + data)
				if fail != errors.Is(err, errFault) || !fail && err != nil {
					c.Fail("sink-result", "%v", err)
				}
			case 1:
				err := sink.Commit(ctx)
				c.Logf("Commit = %v", err)
				switch {
				case final != nil:
					part, etag = nil, nil
				case part == nil:
					if !errors.Is(err, fs.ErrNotExist) {
						c.Fail("sink-result", "nothing to commit: %v", err)
					}
					err = nil
				default:
					final, part, etag = part, nil, nil
				}
				if err != nil {
					c.Fail("sink-result", "%v", err)
				}
			case 2:
				sink = fsutil.NewFsSink[fsT, vroot.File](f, name, 0o600)
				if suffix != ".part" {
					sink.PartSuffix = suffix
				}
				c.Logf("another sink")
			}
			for n, w := range map[string]*string{name: final, name + suffix: part, name + suffix + ".etag": etag} {
				g, ok := f.Get(n)
				if ok != (w != nil) || ok && g != *w {
					c.Fail("sink-content", "%q holds %q (%v), want %s", n, g, ok, show(w))
				}
				if fi, err := f.Stat(n); err == nil && n != name+suffix+".etag" && fi.Mode() != 0o600 {
					c.Fail("sink-mode", "%q has mode %v", n, fi.Mode())
				}
			}
			if f.Open_ != 0 {
				c.Fail("handle-leak", "%d handles left open", f.Open_)
			}
			st, err := sink.State(ctx)
			var want fsutil.SinkState
			if final != nil {
				want = fsutil.SinkState{Offset: int64(len(*final)), Complete: true}
			} else if part != nil {
				want.Offset = int64(len(*part))
				if etag != nil {
					want.ETag = *etag
				}
			}
			if err != nil || st != want {
				c.Fail("sink-state", "State = %+v, %v; want %+v", st, err, want)
			}
			if !c.Visit(fmt.Sprint(name, suffix, show(part), show(etag), show(final)), depth-i-1) {
				return
			}
		}
	}
}

// cancelled: a transfer told to stop says so, keeps what it has, and the next
// one goes on from there.
func cancelled(c *core.C) {
	f := reffs.New()
	vers := [2]string{"abcdef", "UVWXYZ"}
	at := c.Choose(6) - 1
	pushing := c.Bool()
	flt := c.Bool() // the reader reports the cancellation as its own failure
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if at < 0 {
		cancel()
	}
	reads := 0
	stop := func() error {
		if reads == at {
			cancel()
			if flt {
				return ctx.Err()
			}
		}
		reads++
		return nil
	}
	c.Step()
	var err error
	info := fsutil.ContentInfo{ETag: "A", Size: 6}
	run := func(ctx context.Context, hook func() error, sink *fsutil.FsSink[fsT, vroot.File]) error {
		local := reffs.New()
		local.Put("l", vers[0], 0o644)
		local.Before = func(op reffs.Op) (int, error) {
			if op.Name == "f.read" && hook != nil {
				return 0, hook()
			}
			return 0, nil
		}
		if pushing {
			return rcOpt{}.Push(ctx, local, "l", &watchSink{c: c, s: sink, loose: new(bool), etag: "A", max: 2}, info)
		}
		return rcOpt{BufSize: 2}.Pull(ctx, f, "f", fsutil.NewFsSource[fsT, vroot.File](local, "l", "A"), info, 0o644)
	}
	sink := fsutil.NewFsSink[fsT, vroot.File](f, "f", 0o644)
	err = run(ctx, stop, sink)
	got, ok := f.Get("f")
	part, hasPart := f.Get("f.part")
	c.Logf("push=%v cancel at read %d: %v; content %q part %q", pushing, at, err, got, part)
	switch {
	case err == nil && (!ok || got != vers[0]):
		c.Fail("success-without-data", "content %q", got)
	case err != nil && (ok || !errors.Is(err, context.Canceled)):
		c.Fail("cancel", "%v, content %q", err, got)
	case err == nil && at < 3:
		c.Fail("cancel-ignored", "cancelled before it was done and reported as success")
	case err != nil && (!strings.HasPrefix(vers[0], part) || at >= 1 && len(part) < 2*at):
		c.Fail("progress-lost", "the part holds %q (%v)", part, hasPart)
	}
	if err = run(context.Background(), nil, sink); err != nil {
		c.Fail("stuck", "%v", err)
	}
	if got, _ := f.Get("f"); got != vers[0] {
		c.Fail("mixed-versions", "%q", got)
	}
}

// watchSink passes calls on to the real sink in small reads and notes when a
// transfer is continued without both identities known.
type watchSink struct {
	c     *core.C
	s     fsutil.ResumableSink
	side  string
	etag  string
	loose *bool
	max   int
	calls int
	off   int64
	at    int64
	anon  bool // the part holds bytes nobody gave an identity for
	app   bool
}

func (w *watchSink) State(ctx context.Context) (fsutil.SinkState, error) {
	w.calls++
	st, err := w.s.State(ctx)
	w.off = st.Offset
	if err == nil && st.ETag != w.side && !st.Complete && w.side != "" && st.Offset > 0 {
		w.c.Fail("identity-lost", "the sink reports ETag %q, recorded %q", st.ETag, w.side)
	}
	return st, err
}

func (w *watchSink) Append(ctx context.Context, info fsutil.ContentInfo, off int64, r io.Reader) error {
	w.calls++
	w.app, w.at = true, off
	if off > 0 && (w.etag == "" || w.anon) {
		*w.loose = true
	}
	return w.s.Append(ctx, info, off, struct{ io.Reader }{&smallReader{r, w.max}})
}

func (w *watchSink) Commit(ctx context.Context) error {
	w.calls++
	if !w.app && (w.etag == "" || w.anon) {
		*w.loose = true
	}
	return w.s.Commit(ctx)
}

type smallReader struct {
	r io.Reader
	n int
}

func (s *smallReader) Read(p []byte) (int, error) { return s.r.Read(p[:min(len(p), s.n)]) }

var _ = fmt.Sprint
var _ = strings.TrimSpace

func init() {
	core.Register(&core.Property{
		ID: "F02",
		Rule: "every sequence of transfer sessions over two versions of an object (identity and size shown or hidden, the stream cut, the object changing, expectations matching or not) " +
			"with every placement of file system faults, torn writes and a crash; the destination is inspected at every file system operation",
		Assumptions: []string{"equal ETags mean equal bytes", "a transfer continued while the source or the part has no ETag is size-based, as documented, and not judged", "process crashes only: completed writes survive"},
		Scenarios: func(th bool) []core.Scenario {
			if th {
				return []core.Scenario{
					{Name: "pull", Bound: "3 sessions, no fault", Body: pull(3, 0, false, false)},
					{Name: "pull-fault", Bound: "2 sessions, 2 faults", Body: pull(2, 2, false, true)},
					{Name: "pull-crash", Bound: "3 sessions, one crash", Body: pull(3, 0, true, true)},
					{Name: "sink", Bound: "6 calls of Append, Commit and State on the sink itself", Body: sinkOps(6)},
					{Name: "cancel", Bound: "cancellation before every read", Body: cancelled},
					{Name: "moving", Bound: "3 sessions of pushing a local file that changes or fails at any call", Body: moving(3)},
					{Name: "source", Bound: "a source file system failing or replaced at any call", Body: faultySource},
					{Name: "present", Bound: "every state of target, part, sidecar; suffixes; bystanders", Body: present},
					{Name: "push", Bound: "4 sessions", Body: push(4, 0, false)},
					{Name: "push-fault", Bound: "3 sessions, 1 fault, 1 crash", Body: push(3, 1, true)},
				}
			}
			return []core.Scenario{
				{Name: "pull", Bound: "2 sessions, no fault", Body: pull(2, 0, false, false)},
				{Name: "pull3", Bound: "3 sessions, small alphabet", Body: pull(3, 0, false, true)},
				{Name: "pull-crash", Bound: "2 sessions, one crash", Body: pull(2, 0, true, true)},
				{Name: "pull-fault", Bound: "2 sessions, one fault", Body: pull(2, 1, false, true)},
				{Name: "sink", Bound: "4 calls of Append, Commit and State on the sink itself", Body: sinkOps(4)},
				{Name: "cancel", Bound: "cancellation before every read", Body: cancelled},
				{Name: "moving", Bound: "2 sessions of pushing a local file that changes or fails at any call", Body: moving(2)},
				{Name: "source", Bound: "a source file system failing or replaced at any call", Body: faultySource},
				{Name: "present", Bound: "every state of target, part, sidecar; suffixes; bystanders", Body: present},
				{Name: "push", Bound: "3 sessions", Body: push(3, 0, false)},
				{Name: "push-crash", Bound: "2 sessions, one fault, one crash", Body: push(2, 1, true)},
			}
		},
	})
}
