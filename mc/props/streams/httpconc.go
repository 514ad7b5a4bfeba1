package streams

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/ngicks/go-fsys-helper/stream/httprange"
	"verif.local/mc/core"
	"verif.local/mc/vsched"
)

// S07: one httprange reader used by several goroutines.

// cserver answers the requests of one run: honestly, but for the object being
// replaced from some request on, or one request stalling until it is cancelled.
type cserver struct {
	obj     [2]string
	flip    int // the first request answered with version 1; -1: none
	stall   int // the request that stalls; -1: none
	stallAt int // -1: before the answer; else after that many bytes
	chunk   int // bytes a body hands over per Read; 0: all
	eager   bool
	reqs    int
	bodies  []*cbody
	served  [2]int
	calls   [16]*hcall // by thread
	wide    int
	wrong   string
	stalled []*hcall
	closed  bool // Close returned
}

type cbody struct {
	s      *cserver
	ctx    context.Context
	data   string
	read   int
	stall  int // -1: none
	closed int
	call   *hcall
}

func (b *cbody) Read(p []byte) (int, error) {
	vsched.SyncPoint()
	if b.closed > 0 {
		return 0, errors.New("http: read on closed response body")
	}
	if b.stall >= 0 && b.read >= b.stall {
		b.s.stalled = append(b.s.stalled, b.s.caller())
		vsched.Block("a stalled body", func() bool { return b.ctx.Err() != nil || b.closed > 0 })
	}
	if err := b.ctx.Err(); err != nil {
		return 0, err
	}
	if b.closed > 0 {
		return 0, errors.New("http: read on closed response body")
	}
	rest := b.data[b.read:]
	if rest == "" {
		return 0, io.EOF
	}
	if b.s.chunk > 0 && len(rest) > b.s.chunk {
		rest = rest[:b.s.chunk]
	}
	if b.stall >= 0 && len(rest) > b.stall-b.read {
		rest = rest[:b.stall-b.read]
	}
	n := copy(p, rest)
	b.read += n
	if b.s.eager && b.read == len(b.data) {
		return n, io.EOF
	}
	return n, nil
}

func (b *cbody) Close() error {
	vsched.SyncPoint()
	b.closed++
	return nil
}

// caller is the call the running thread is making, if any.
func (s *cserver) caller() *hcall {
	if i := vsched.Self(); i >= 0 {
		return s.calls[i]
	}
	return nil
}

func cetag(v int) string { return fmt.Sprintf(`"v%d"`, v) }

func (s *cserver) Do(req *http.Request) (*http.Response, error) {
	vsched.SyncPoint()
	call := s.caller()
	no := s.reqs
	s.reqs++
	if call != nil {
		call.reqs++
	}
	fs, ls, _ := strings.Cut(strings.TrimPrefix(req.Header.Get("Range"), "bytes="), "-")
	first, err := strconv.Atoi(fs)
	last := math.MaxInt
	if ls != "" && err == nil {
		last, err = strconv.Atoi(ls)
	}
	if err != nil || last < first {
		s.wrong = "malformed Range " + req.Header.Get("Range")
		return nil, errFault
	}
	if call == nil || last-first >= call.n {
		s.wide++
	}
	if s.stall == no && s.stallAt < 0 {
		s.stalled = append(s.stalled, call)
		probe := call != nil && call.kind == "probe"
		vsched.Block("a stalled request", func() bool {
			if probe {
				return s.closed
			}
			return req.Context().Err() != nil
		})
		if probe {
			// Close reaches a probe through a goroutine of the context package.
			select {
			case <-req.Context().Done():
			case <-time.After(10 * time.Second):
				s.wrong = "Close does not end a probe in flight"
			}
			return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: context.Canceled}
		}
	}
	if err := req.Context().Err(); err != nil && (call == nil || call.kind != "probe") {
		return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: err}
	}
	v := 0
	if s.flip >= 0 && no >= s.flip {
		v = 1
	}
	s.served[v]++
	if call != nil {
		call.answered = v
	}
	obj := s.obj[v]
	b := &cbody{s: s, ctx: req.Context(), stall: -1, call: call}
	if call != nil && call.kind == "probe" {
		// Close reaches a probe in its own time: its answer is let through.
		b.ctx = context.Background()
	}
	if s.stall == no && (call == nil || call.kind != "probe") {
		b.stall = s.stallAt
	}
	resp := &http.Response{Header: http.Header{"Etag": {cetag(v)}}, Request: req, Body: b, Proto: "HTTP/1.1"}
	ir := req.Header.Get("If-Range")
	switch {
	case ir != "" && ir != cetag(v):
		resp.StatusCode, b.data = 200, obj
	case first >= len(obj):
		resp.StatusCode = 416
		resp.Header.Set("Content-Range", fmt.Sprintf("bytes */%d", len(obj)))
	default:
		last = min(last, len(obj)-1)
		resp.StatusCode, b.data = 206, obj[first:last+1]
		resp.Header.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", first, last, len(obj)))
	}
	resp.ContentLength = int64(len(b.data))
	s.bodies = append(s.bodies, b)
	vsched.SyncPoint()
	return resp, nil
}

// hcall is one call and what it gave.
type hcall struct {
	kind string // "read", "close", "probe", "meta"
	off  int
	n    int

	inv, ret int
	got      []byte
	err      error
	meta     httprange.Metadata
	metaOK   bool
	reqs     int
	answered int
}

func (h *hcall) String() string {
	if h.kind == "read" {
		return fmt.Sprintf("ReadAt(%d bytes, %d)", h.n, h.off)
	}
	return h.kind
}

func (h *hcall) result() string {
	switch h.kind {
	case "read":
		return fmt.Sprintf("%q %v", h.got, h.err)
	case "meta":
		return fmt.Sprintf("%q %d %v", h.meta.ETag, h.meta.Size, h.metaOK)
	}
	return fmt.Sprint(h.err)
}

func (h *hcall) run(r *httprange.ReaderAt) {
	switch h.kind {
	case "read":
		p := make([]byte, h.n)
		n, err := r.ReadAt(p, int64(h.off))
		if n < 0 || n > h.n {
			panic(fmt.Sprintf("ReadAt of %d bytes reports %d", h.n, n))
		}
		h.got, h.err = p[:n], err
	case "close":
		h.err = r.Close()
	case "probe":
		h.err = r.Probe(context.Background())
	case "meta":
		h.meta, h.metaOK = r.Metadata()
	}
}

func rd(off, n int) hcall { return hcall{kind: "read", off: off, n: n} }

type hprog [][]hcall

func (p hprog) String() string {
	var ts []string
	for _, t := range p {
		var os []string
		for i := range t {
			os = append(os, t[i].String())
		}
		ts = append(ts, strings.Join(os, "; "))
	}
	return strings.Join(ts, " || ")
}

// hfault is how the server misbehaves.
type hfault struct {
	flip, stall, at int
	shorter         bool
}

func (f hfault) String() string {
	switch {
	case f.flip >= 0 && f.shorter:
		return fmt.Sprintf("replaced by a shorter object at request %d", f.flip)
	case f.flip >= 0:
		return fmt.Sprintf("replaced at request %d", f.flip)
	case f.stall >= 0 && f.at < 0:
		return fmt.Sprintf("request %d stalls", f.stall)
	case f.stall >= 0:
		return fmt.Sprintf("the body of request %d stalls after %d bytes", f.stall, f.at)
	}
	return "honest"
}

type section struct{ off, n int }

var hsections = []section{{-1, 0}, {0, 4}, {1, 2}, {0, -1}}

func hconc(progs []hprog, secs []section, faults []hfault, styles int, opt vsched.Options) func(c *core.C) {
	return func(c *core.C) {
		prog := progs[c.Choose(len(progs))]
		sec := secs[c.Choose(len(secs))]
		f := faults[c.Choose(len(faults))]
		s := &cserver{obj: [2]string{"abcd", "WXYZ"}, flip: f.flip, stall: f.stall, stallAt: f.at,
			// Room from the start: the race detector watches what the runtime does for the harness.
			bodies: make([]*cbody, 0, 32), stalled: make([]*hcall, 0, 32)}
		if f.shorter {
			s.obj[1] = "WX"
		}
		switch c.Choose(styles) {
		case 0:
			s.chunk = 1
		case 1:
			s.eager = true
		}
		cfg := &httprange.Config{Client: s}
		var r *httprange.ReaderAt
		var err error
		base, end, what := 0, math.MaxInt, "New"
		if sec.off >= 0 {
			r, err = httprange.NewRange(context.Background(), "http://h.example/o", int64(sec.off), int64(sec.n), cfg)
			base, what = sec.off, fmt.Sprintf("NewRange(%d, %d)", sec.off, sec.n)
			if sec.n >= 0 {
				end = base + sec.n
			}
		} else {
			r, err = httprange.New(context.Background(), "http://h.example/o", cfg)
		}
		if err != nil {
			panic(err)
		}
		var calls []*hcall
		var threads []func()
		closes := false
		for i, t := range prog {
			var own []*hcall
			for _, o := range t {
				h := &hcall{kind: o.kind, off: o.off, n: o.n, answered: -1}
				closes = closes || o.kind == "close"
				own = append(own, h)
			}
			calls = append(calls, own...)
			threads = append(threads, func() {
				for _, h := range own {
					s.calls[i] = h
					h.inv = vsched.Now()
					h.run(r)
					h.ret = vsched.Now()
					s.closed = s.closed || h.kind == "close"
				}
			})
		}
		races := vsched.RaceErrors()
		out := vsched.Run(c.Choose, opt, threads...)
		var trail []string
		for _, h := range calls {
			res := "does not return"
			if h.ret > 0 {
				res = h.result()
			}
			trail = append(trail, fmt.Sprintf("[%d,%d] %v: %s", h.inv, h.ret, h, res))
		}
		c.Step()
		key := prog.String()
		head := fmt.Sprintf("%s, %v, %v", what, f, prog)
		c.Logf("%s: %s", head, strings.Join(trail, "; "))
		fail := func(kind, format string, a ...any) {
			c.Fail(kind+":"+key, "%s: %s\n%s", head, fmt.Sprintf(format, a...), strings.Join(trail, "\n"))
		}
		switch {
		case out.Panic != nil:
			c.FailPanic(out.Panic, out.Stack)
		case out.Endless:
			fail("endless", "does not come to an end within %d steps", opt.MaxPoints)
		}
		if vsched.RaceErrors() > races {
			fail("race", "the calls access the same memory with nothing ordering the accesses\n%s", core.RaceReport())
		}
		// Where the section's own stream can stand: a read there may have to
		// wait for another read there.
		at := map[int]bool{0: true}
		for range calls {
			for _, h := range calls {
				if h.kind == "read" && at[h.off] {
					for k := 1; k <= h.n; k++ {
						at[h.off+k] = true
					}
				}
			}
		}
		stalls := func(h *hcall) bool {
			for _, x := range s.stalled {
				if x == h {
					return true
				}
			}
			return false
		}
		if out.Deadlock != "" {
			if s.closed {
				fail("deadlock", "no call can go on though the reader is closed: %s", out.Deadlock)
			}
			for _, h := range calls {
				if h.inv > 0 && h.ret == 0 && h.kind == "close" {
					fail("deadlock", "Close does not return: %s", out.Deadlock)
				}
				if h.inv > 0 && h.ret == 0 && !stalls(h) && !(h.kind == "read" && sec.off >= 0 && at[h.off]) {
					fail("stuck", "%v waits for a read the network has stalled: %s", h, out.Deadlock)
				}
			}
		}
		if s.wrong != "" {
			fail("request", "%s", s.wrong)
		}
		if sec.off >= 0 && s.wide > 1 || sec.off < 0 && s.wide > 0 {
			fail("wide", "%d requests ask for more than the read at hand", s.wide)
		}
		// What the calls that returned say, and that one version explains it.
		may := [2]bool{true, true}
		closedAt := math.MaxInt
		for _, h := range calls {
			if h.kind == "close" && h.ret > 0 {
				closedAt = min(closedAt, h.ret)
			}
		}
		changed := s.served[0] > 0 && s.served[1] > 0
		excused := func(h *hcall) bool {
			return closes || changed && errors.Is(h.err, httprange.ErrObjectChanged)
		}
		for _, h := range calls {
			if h.ret == 0 {
				continue
			}
			if h.reqs > 1 {
				fail("requests", "%v makes %d requests", h, h.reqs)
			}
			switch h.kind {
			case "close":
				if h.err != nil {
					fail("close", "Close: %v", h.err)
				}
			case "probe":
				if h.err != nil && !excused(h) {
					fail("result", "%v: %v", h, h.err)
				}
				if h.err == nil && h.answered >= 0 {
					may[1-h.answered] = false
				}
				if closedAt < h.inv && !errors.Is(h.err, context.Canceled) {
					fail("closed", "%v after Close: %v", h, h.err)
				}
			case "meta":
				if !h.metaOK {
					continue
				}
				for v := range may {
					if h.meta.ETag != cetag(v) || h.meta.Size != int64(len(s.obj[v])) || h.meta.Header.Get("ETag") != cetag(v) {
						may[v] = false
					}
				}
			case "read":
				abs := base + h.off
				full := h.err == nil && len(h.got) == h.n
				eof := h.err == io.EOF
				if closedAt < h.inv && (h.err == nil || len(h.got) > 0) {
					fail("closed", "%v after Close: %s", h, h.result())
				}
				for v := range may {
					lim := min(len(s.obj[v]), end)
					ok := len(h.got) == 0 || abs+len(h.got) <= lim && string(h.got) == s.obj[v][abs:abs+len(h.got)]
					ok = ok && (!eof || abs+len(h.got) >= lim)
					if len(h.got) == 0 && eof && abs >= end {
						ok = true
					}
					if !ok {
						may[v] = false
					}
				}
				if !full && !eof && !excused(h) {
					fail("result", "%v: %s", h, h.result())
				}
				if eof && len(h.got) < h.n && abs+len(h.got) < min(len(s.obj[0]), end) && abs+len(h.got) < min(len(s.obj[1]), end) {
					fail("result", "%v: %s", h, h.result())
				}
			}
			if !may[0] && !may[1] {
				fail("version", "no single version of the object explains what %v and the calls before it gave", h)
			}
		}
		if s.flip < 0 && !may[0] {
			fail("bytes", "the object does not hold what was read")
		}
		c.Outcome(fmt.Sprintf("%d switches", out.Switches))
		c.Distinct(head + strings.Join(trail, "|"))
		if out.Deadlock != "" {
			return
		}
		open := func() (n int) {
			for _, b := range s.bodies {
				if b.closed == 0 {
					n++
				}
			}
			return n
		}
		elsewhere := false
		for _, h := range calls {
			// Beyond the section there is nothing to ask for.
			elsewhere = elsewhere || h.kind == "read" && !at[h.off] && base+h.off < min(4, end)
		}
		if n := open(); n > 1 || n > 0 && (sec.off < 0 || closes) {
			fail("leak", "%d bodies stay open", n)
		} else if n > 0 && elsewhere && f.flip < 0 {
			fail("leak", "the stream stays open after a read elsewhere")
		}
		if err := r.Close(); err != nil {
			fail("close", "Close: %v", err)
		}
		if n := open(); n > 0 {
			fail("leak", "%d bodies stay open after Close", n)
		}
	}
}

func init() {
	core.Register(&core.Property{
		ID:   "S07",
		Rule: "for every schedule within the bound, every read returns exactly the bytes of one version of the object at its offset (the same version for all calls), at most one request reaches beyond the read at hand, no read waits for another's stalled request unless it is in line for the same stream, Close ends everything in flight and leaves no body open, and no schedule deadlocks, panics or has two unordered accesses to the same memory",
		Assumptions: []string{
			"sequentially consistent memory; scheduling points at every lock operation, atomic operation, request, answer and body read, and for pairs at every statement of httprange that reaches memory through a pointer, field, index or slice",
			"the transport ends a stalled request when its context is cancelled",
		},
		Scenarios: func(th bool) (out []core.Scenario) {
			add := func(name string, progs []hprog, secs []section, faults []hfault, styles, preempt int, stmts bool) {
				what := "locks, atomics and the network"
				if stmts {
					what = "statements, locks, atomics and the network"
				}
				out = append(out, core.Scenario{
					Name:  name,
					Bound: fmt.Sprintf("%d programs on %d readers, %d server behaviours, %d body styles, every schedule with at most %d preemptions at %s", len(progs), len(secs), len(faults), styles, preempt, what),
					Body:  hconc(progs, secs, faults, styles, vsched.Options{Preempt: preempt, Stmts: stmts, MaxPoints: 20000}),
				})
			}
			cl, pr, me := hcall{kind: "close"}, hcall{kind: "probe", n: 1}, hcall{kind: "meta"}
			all := []hcall{rd(0, 1), rd(0, 2), rd(1, 1), rd(2, 2), rd(3, 2), rd(0, 6), rd(4, 1), cl, pr, me}
			few := []hcall{rd(0, 1), rd(1, 1), rd(3, 1), cl}
			none := hfault{-1, -1, 0, false}
			faults := []hfault{none, {0, -1, 0, false}, {1, -1, 0, false}, {1, -1, 0, true}, {-1, 0, -1, false}, {-1, 0, 0, false}, {-1, 0, 1, false}, {-1, 1, -1, false}, {-1, 1, 0, false}}
			var two, chain, three []hprog
			for i, a := range all {
				for _, b := range all[i:] {
					two = append(two, hprog{{a}, {b}})
				}
			}
			for _, a := range []hcall{rd(0, 1), rd(0, 2), pr} {
				for _, b := range []hcall{rd(1, 1), rd(2, 1), rd(3, 1), rd(0, 1)} {
					for _, o := range all {
						chain = append(chain, hprog{{a, b}, {o}})
					}
				}
			}
			for i, a := range few {
				for j, b := range few[i:] {
					for _, d := range few[i+j:] {
						three = append(three, hprog{{a}, {b}, {d}})
					}
				}
			}
			side := []hprog{
				{{rd(0, 1), rd(1, 1)}, {rd(0, 1), rd(1, 1)}}, {{rd(0, 1), rd(1, 1), rd(2, 1)}, {rd(3, 1), me}},
				{{rd(0, 1), rd(1, 1)}, {rd(3, 1), cl}}, {{pr, rd(0, 1)}, {rd(0, 1), cl}},
			}
			d := 0
			if th {
				d = 1
			}
			add("pairs, statement by statement", two, hsections, faults, 2, 1+d, true)
			add("pairs", two, hsections[:3], faults, 1+d, 2+d, false)
			add("two calls against one", chain, hsections[:3], faults, 1+d, 1+d, false)
			add("two calls against one, honest server", chain, hsections[:2], faults[:1], 1+d, 2+d, false)
			add("three calls", three, hsections[:3], faults, 1+d, 1+d, false)
			add("streams side by side", side, hsections[:3], faults, 1+d, 2+d, false)
			return out
		},
	})
}
