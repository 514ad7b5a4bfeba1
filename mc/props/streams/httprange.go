package streams

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ngicks/go-fsys-helper/stream/fileserver"
	"github.com/ngicks/go-fsys-helper/stream/httprange"
	"verif.local/mc/core"
)

const secret = "S3CR3T"

// hserver is an HTTP object server whose every answer is a choice. The default
// choice is an honest answer; anything else spends a deviation.
type hserver struct {
	c        *core.C
	vers     [2][]byte
	ver      int
	etag     int // 0 strong, 1 weak, 2 none
	lm       bool
	stuck    int    // both versions share: 1 the Last-Modified (changed within a second), 2 the weak ETag
	part     string // answers leaving out one validator leave out this one
	empty    int    // how an empty object is answered: 0 416, 1 200 with length 0, 2 200 chunked
	eager    bool
	dev      int  // deviations left
	blind    bool // an answer without validators was given
	evil     bool // an answer from another origin was given
	prior    int
	accepted bool // an earlier answer was accepted

	mu     sync.Mutex
	bodies []*hbody

	// per operation
	reqs    int
	bad     string // deviation manifested in this operation ("" none)
	cond    bool   // the request carried If-Range
	ansVer  int
	total   int // requests ever
	reqLog  []string
	answers int
}

type hbody struct {
	s      *hserver
	data   []byte
	cut    int // -1: none; else the body ends/fails after cut bytes
	err    error
	read   int
	closed int
	failed bool
}

func (b *hbody) Read(p []byte) (int, error) {
	b.s.mu.Lock()
	closed := b.closed
	b.s.mu.Unlock()
	if closed > 0 {
		return 0, errors.New("http: read on closed response body")
	}
	lim := len(b.data)
	if b.cut >= 0 && b.cut < lim {
		lim = b.cut
	}
	if b.read >= lim {
		if b.cut >= 0 && b.cut < len(b.data) {
			b.s.mu.Lock()
			b.failed = true
			b.s.mu.Unlock()
			if b.err != nil {
				return 0, b.err
			}
		}
		return 0, io.EOF
	}
	n := copy(p, b.data[b.read:lim])
	b.read += n
	if b.s.eager && b.read == lim && lim == len(b.data) {
		return n, io.EOF
	}
	return n, nil
}

func (b *hbody) Close() error {
	b.s.mu.Lock()
	b.closed++
	b.s.mu.Unlock()
	return nil
}

func (s *hserver) openBodies(first int) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for _, b := range s.bodies[:first] {
		if b.closed == 0 {
			n++
		}
	}
	return n
}

const hURL = "http://user:" + secret + "@h.example/p/o?sig=" + secret + "#" + secret

func (s *hserver) etagOf(v int) string {
	if s.stuck == 2 {
		v = 0
	}
	switch s.etag {
	case 0:
		return fmt.Sprintf(`"e%d"`, v)
	case 1:
		return fmt.Sprintf(`W/"e%d"`, v)
	}
	return ""
}

func (s *hserver) lmOf(v int) string {
	if !s.lm {
		return ""
	}
	if s.stuck == 1 {
		v = 0
	}
	return fmt.Sprintf("Mon, 02 Jan 2006 15:04:0%d GMT", v)
}

func (s *hserver) detectable() bool {
	return s.etag != 2 || s.lm || len(s.vers[0]) != len(s.vers[1])
}

func (s *hserver) Do(req *http.Request) (*http.Response, error) {
	s.reqs++
	s.total++
	if err := req.Context().Err(); err != nil {
		s.bad = "cancelled"
		return nil, &url.Error{Op: "Get", URL: hURL, Err: err}
	}
	c := s.c
	h := req.Header
	rg := h.Get("Range")
	s.reqLog = append(s.reqLog, rg)
	if len(h.Values("Range")) != 1 || !strings.HasPrefix(rg, "bytes=") || h.Get("Accept-Encoding") != "identity" || h.Get("X-Auth") != "tok" || req.Method != "GET" || req.URL.String() != hURL {
		c.Fail("hr-request", "request %s %s headers %v", req.Method, req.URL, h)
	}
	spec := strings.TrimPrefix(rg, "bytes=")
	fs, ls, _ := strings.Cut(spec, "-")
	first, err1 := strconv.ParseInt(fs, 10, 64)
	last := int64(math.MaxInt64)
	var err2 error
	if ls != "" {
		last, err2 = strconv.ParseInt(ls, 10, 64)
	}
	if err1 != nil || err2 != nil || first < 0 || last < first {
		c.Fail("hr-request", "malformed Range %q", rg)
	}
	ir := h.Get("If-Range")
	s.cond = ir != ""
	if strings.HasPrefix(ir, "W/") {
		c.Fail("hr-weak-if-range", "If-Range carries a weak validator %q", ir)
	}

	dev := ""
	if s.dev > 0 {
		menu := []string{"", "transport", "500", "404", "410", "ignore", "gzip", "unzipped", "identity", "short", "shift", "nocr", "startotal", "badcr", "416", "416nocr", "truncate", "bodyerr", "long", "bytesunit", "204"}
		same := len(s.vers[0]) == len(s.vers[1])
		if !s.evil {
			menu = append(menu, "origin")
		}
		// Without validators a change that keeps the length is undetectable.
		if !same || s.ver == 0 && s.prior != 2 {
			menu = append(menu, "novalidators")
		}
		// One validator of two may be missing as long as the other tells.
		if s.etag != 2 && s.lm && s.part != "nolm" && (s.stuck != 1 || !same) {
			menu = append(menu, "noetag")
		}
		if s.etag != 2 && s.lm && s.part != "noetag" && (s.stuck != 2 || !same) {
			menu = append(menu, "nolm")
		}
		if s.ver == 0 && s.detectable() && !(s.blind && same) {
			menu = append(menu, "change")
		}
		dev = menu[c.Choose(len(menu))]
		if dev != "" {
			s.dev--
		}
	}
	if dev == "change" {
		s.ver = 1
	}
	obj := s.vers[s.ver]
	s.ansVer = s.ver
	s.answers++
	mark := func() { s.bad = dev }
	size := int64(len(obj))

	resp := &http.Response{Header: http.Header{}, Request: req, Proto: "HTTP/1.1"}
	if e := s.etagOf(s.ver); e != "" {
		resp.Header.Set("ETag", e)
	}
	if l := s.lmOf(s.ver); l != "" {
		resp.Header.Set("Last-Modified", l)
	}
	body := &hbody{s: s, cut: -1}
	fin := func(code int, data []byte) (*http.Response, error) {
		resp.StatusCode = code
		body.data = data
		resp.ContentLength = int64(len(data))
		resp.Body = body
		s.mu.Lock()
		s.bodies = append(s.bodies, body)
		s.mu.Unlock()
		return resp, nil
	}
	switch dev {
	case "transport":
		mark()
		return nil, &url.Error{Op: "Get", URL: hURL, Err: errFault}
	case "500", "404", "410", "204":
		mark()
		code, _ := strconv.Atoi(dev)
		return fin(code, []byte("oops"))
	case "416nocr":
		mark()
		return fin(416, nil)
	case "416":
		resp.Header.Set("Content-Range", fmt.Sprintf("bytes */%d", size))
		if first < size {
			mark()
		}
		return fin(416, nil)
	case "gzip":
		resp.Header.Set("Content-Encoding", "gzip")
		mark()
	case "unzipped":
		resp.Uncompressed = true
		mark()
	case "identity":
		resp.Header.Set("Content-Encoding", core.Pick(c, "identity", "Identity"))
	case "novalidators":
		s.blind = true
		resp.Header.Del("ETag")
		resp.Header.Del("Last-Modified")
	case "noetag":
		s.part = dev
		resp.Header.Del("ETag")
	case "nolm":
		s.part = dev
		resp.Header.Del("Last-Modified")
	case "origin":
		resp.Request = req.Clone(req.Context())
		resp.Request.URL.Host = "evil.example"
		s.evil = true
		if s.accepted {
			mark()
		}
	case "ignore":
		if size > 0 {
			mark()
		}
		return fin(200, obj)
	}
	// If-Range: a validator that does not match turns the answer into the whole entity.
	if ir != "" && dev != "novalidators" && dev != "noetag" && dev != "nolm" {
		match := ir == s.etagOf(s.ver) && s.etag == 0 || ir == s.lmOf(s.ver) && s.lm
		if !match {
			return fin(200, obj)
		}
	}
	if size == 0 && s.empty > 0 && dev != "short" {
		r, err := fin(200, nil)
		if s.empty == 2 {
			r.ContentLength = -1
		}
		return r, err
	}
	if first >= size {
		resp.Header.Set("Content-Range", fmt.Sprintf("bytes */%d", size))
		return fin(416, nil)
	}
	if last >= size {
		last = size - 1
	}
	from, to := first, last
	cr := ""
	switch dev {
	case "short":
		if last > first {
			to = last - 1
			mark()
		}
	case "shift":
		if first > 0 {
			from = first - 1
		} else if last < size-1 {
			to = last + 1
		} else if first < last {
			from = first + 1
		} else {
			break
		}
		mark()
	case "nocr":
		mark()
		return fin(206, obj[from:to+1])
	case "startotal":
		cr = fmt.Sprintf("bytes %d-%d/*", from, to)
		mark()
	case "badcr":
		cr = fmt.Sprintf("bytes %d-%d/%d", from, size, size)
		mark()
	case "bytesunit":
		cr = fmt.Sprintf("chars %d-%d/%d", from, to, size)
		mark()
	case "truncate":
		body.cut = c.Choose(int(to-from) + 1)
	case "bodyerr":
		body.cut = c.Choose(int(to-from) + 1)
		body.err = &url.Error{Op: "Get", URL: hURL, Err: errFault}
	}
	if cr == "" {
		cr = fmt.Sprintf("bytes %d-%d/%d", from, to, size)
	}
	resp.Header.Set("Content-Range", cr)
	data := append([]byte(nil), obj[from:to+1]...)
	if dev == "long" {
		data = append(data, "JUNK"...)
	}
	return fin(206, data)
}

func leak(c *core.C, err error) {
	if err == nil {
		return
	}
	for _, f := range []string{"%v", "%+v", "%s", "%q"} {
		if strings.Contains(fmt.Sprintf(f, err), secret) {
			c.Fail("credential-leak", "error text carries a credential: %v", err)
		}
	}
}

func rangeOps(sizes []int, depth, devs int, lanes, small bool) func(c *core.C) {
	return func(c *core.C) {
		size := sizes[c.Choose(len(sizes))]
		s := &hserver{c: c}
		s.vers[0] = []byte("abcdefgh"[:size])
		if small {
			p := [][3]int{{0, 1, 0}, {2, 1, 0}, {2, 0, 0}, {1, 1, 1}, {1, 1, 2}}[c.Choose(5)]
			s.etag, s.lm, s.eager, s.stuck = p[0], p[1] == 1, p[1] == 0, p[2]
		} else {
			s.etag, s.lm, s.eager = c.Choose(3), c.Bool(), c.Bool()
			if s.etag != 2 && s.lm {
				s.stuck = c.Choose(s.etag + 2)
			}
		}
		if size == 0 {
			s.empty = c.Choose(3)
		}
		nv := 3
		if small {
			nv = 2
		}
		switch c.Choose(nv) {
		case 0:
			s.vers[1] = bytes.ToUpper(s.vers[0])
			if size == 0 {
				s.vers[1] = []byte("Z")
			}
		case 1:
			s.vers[1] = append(bytes.ToUpper(s.vers[0]), 'Z')
		case 2:
			s.vers[1] = bytes.ToUpper(s.vers[0][:size/2])
			if size == 0 {
				c.Prune()
			}
		}
		s.dev = devs
		cfg := &httprange.Config{Client: s, Header: http.Header{"X-Auth": {"tok"}, "Range": {"bytes=7-9"}, "If-Range": {`"junk"`}, "Accept-Encoding": {"gzip"}}}
		prior := c.Choose(3)
		s.prior = prior
		pinned := -1
		switch prior {
		case 1: // matching prior knowledge
			cfg.PriorKnowledge = httprange.Metadata{ETag: s.etagOf(0), LastModified: s.lmOf(0), Size: int64(size)}
			if s.etag != 2 || s.lm || size > 0 {
				pinned = 0
			}
		case 2: // knowledge of an older version: the server already moved on
			if !s.detectable() || len(s.vers[0]) == 0 {
				c.Prune()
			}
			cfg.PriorKnowledge = httprange.Metadata{ETag: s.etagOf(0), LastModified: s.lmOf(0), Size: int64(size)}
			pinned = 0
			s.ver = 1
		}
		var r *httprange.ReaderAt
		var err error
		base, end := int64(0), int64(math.MaxInt64)
		if lanes {
			base = int64(c.Choose(size + 2))
			n := int64(core.Pick(c, size+1, 2, 1, 0, -1))
			r, err = httprange.NewRange(context.Background(), hURL, base, n, cfg)
			if n >= 0 {
				end = base + n
			}
			c.Logf("NewRange(%d,%d)", base, n)
		} else {
			r, err = httprange.New(context.Background(), hURL, cfg)
		}
		if err != nil {
			c.Fail("hr-new", "constructor: %v", err)
		}
		c.Logf("size=%d etag=%d lm=%v v1=%q prior=%d", size, s.etag, s.lm, s.vers[1], prior)
		seq := base
		laneOK := lanes
		good := false  // some answer was accepted
		honest := true // no deviation so far
		for step := 0; step < depth; step++ {
			c.Step()
			s.reqs, s.bad, s.cond = 0, "", false
			before := s.ver
			answers := s.answers
			s.mu.Lock()
			nb := len(s.bodies)
			for _, b := range s.bodies {
				b.failed = false
			}
			s.mu.Unlock()
			if good {
				s.accepted = true
			}
			lens := []int{1, 2, size + 2}
			if small {
				lens = []int{1, size + 1}
			}
			k := c.Choose(2 + len(lens)*(size+1))
			if k == 0 {
				err := r.Probe(context.Background())
				c.Logf("Probe=%v (%s)", err, s.bad)
				leak(c, err)
				if err == nil {
					if s.bad != "" && s.bad != "body" {
						c.Fail("hr-bad-accepted", "Probe accepted a %s answer", s.bad)
					}
					if pinned >= 0 && s.ansVer != pinned {
						c.Fail("hr-change-missed", "Probe accepted version %d, reader is pinned to %d", s.ansVer, pinned)
					}
					pinned = s.ansVer
					good = true
				} else if s.bad == "" && s.ver == before && (pinned < 0 || pinned == s.ver) && !s.evil && s.ver == 0 {
					c.Fail("hr-spurious", "honest server, Probe: %v", err)
				}
				if s.ver != before || s.bad != "" || s.evil {
					honest = false
				}
				continue
			}
			if k == 1 {
				if err := r.Close(); err != nil {
					c.Fail("hr-close", "Close: %v", err)
				}
				c.Logf("Close")
				waitClosed(c, s, len(s.bodies))
				p := make([]byte, 1)
				n, err := r.ReadAt(p, 0)
				leak(c, err)
				if n != 0 || err == nil {
					c.Fail("hr-read-after-close", "ReadAt after Close = %d,%v", n, err)
				}
				if s.openBodies(len(s.bodies)) != 0 {
					c.Fail("hr-body-leak", "a read after Close left a body open")
				}
				return
			}
			off := int64((k - 2) / len(lens))
			ln := lens[(k-2)%len(lens)]
			p := bytes.Repeat([]byte{'#'}, ln)
			n, err := r.ReadAt(p, off)
			if s.reqs > 0 {
				// A lane this read was not for is handed back behind it.
				waitClosed(c, s, nb)
			}
			s.mu.Lock()
			for i, b := range s.bodies {
				if b.failed && (s.reqs == 0 || i >= nb) && s.bad == "" {
					s.bad = "body"
				}
			}
			s.mu.Unlock()
			c.Logf("ReadAt(%d,%d)=%d,%q,%v reqs=%d %v (%s)", ln, off, n, p[:max(n, 0)], err, s.reqs, s.reqLog, s.bad)
			leak(c, err)
			abs := base + off
			if n < 0 || n > ln {
				c.Fail("hr-count", "ReadAt returned %d for %d bytes", n, ln)
			}
			if n < ln && err == nil {
				c.Fail("hr-short-nil", "ReadAt(%d,%d)=%d with a nil error", ln, off, n)
			}
			if n > 0 && s.answers > answers && err == nil {
				good = true
			}
			if n > 0 {
				v := s.ansVer
				if s.answers == answers {
					v = pinned // served by an already open response
				}
				if pinned < 0 {
					pinned = v
				}
				obj := s.vers[pinned]
				if abs+int64(n) > min(int64(len(obj)), end) || !bytes.Equal(p[:n], obj[abs:abs+int64(n)]) {
					c.Fail("hr-wrong-bytes", "ReadAt(%d,%d) returned %q; the object (version %d) is %q", ln, off, p[:n], pinned, obj)
				}
			}
			if s.reqs > 1 {
				c.Fail("hr-many-requests", "one read made %d requests", s.reqs)
			}
			changed := s.ver != before
			if err == io.EOF {
				if s.bad != "" {
					c.Fail("hr-fault-as-eof", "a %s answer ended as io.EOF", s.bad)
				}
				v := pinned
				if v < 0 {
					v = s.ansVer
				}
				lim := min(int64(len(s.vers[v])), end)
				if s.answers == 0 && abs < end {
					// no answer yet: only prior knowledge can say where the end is
					lim = min(int64(size), end)
					if prior == 0 {
						c.Fail("hr-early-eof", "io.EOF before any answer")
					}
				}
				if abs+int64(n) < lim {
					c.Fail("hr-early-eof", "ReadAt(%d,%d)=%d,EOF but the object reaches %d", ln, off, n, lim)
				}
				if s.answers > answers && pinned < 0 {
					pinned = s.ansVer
				}
			}
			if s.bad != "" && err == nil && s.bad != "body" {
				c.Fail("hr-bad-accepted", "a %s answer was accepted", s.bad)
			}
			switch s.bad {
			case "transport":
				if !errors.Is(err, errFault) {
					c.Fail("hr-transport-hidden", "transport failure became %v", err)
				}
			case "500", "404", "410", "204":
				var sc *httprange.StatusCodeError
				if !errors.As(err, &sc) || strconv.Itoa(sc.Code) != s.bad || sc.NotFound() != (s.bad == "404" || s.bad == "410") {
					c.Fail("hr-status", "status %s became %v", s.bad, err)
				}
			case "ignore":
				want := httprange.ErrRangeIgnored
				if s.cond {
					want = httprange.ErrObjectChanged
				}
				if !errors.Is(err, want) {
					c.Fail("hr-ignored-kind", "a full answer (conditional=%v) became %v", s.cond, err)
				}
			case "short", "shift", "origin":
				if !errors.Is(err, httprange.ErrObjectChanged) {
					c.Fail("hr-kind", "a %s answer became %v", s.bad, err)
				}
			}
			if s.answers > answers && pinned >= 0 && s.ansVer != pinned && s.bad == "" {
				if !errors.Is(err, httprange.ErrObjectChanged) {
					c.Fail("hr-change-missed", "version %d answered a reader pinned to %d: n=%d err=%v", s.ansVer, pinned, n, err)
				}
			}
			if changed || s.bad != "" || s.evil {
				honest = false
			}
			// An honest answer from the version the reader is on must be delivered in full.
			if s.bad == "" && s.ver == 0 && !changed && !s.evil && (pinned == 0 || pinned < 0) {
				lim := min(int64(size), end)
				want := int64(0)
				if abs < lim {
					want = min(int64(ln), lim-abs)
				}
				if int64(n) != want || (err != nil && err != io.EOF) {
					c.Fail("hr-spurious", "honest server: ReadAt(%d,%d)=%d,%v want %d bytes", ln, off, n, err, want)
				}
				if abs >= lim && err != io.EOF {
					c.Fail("hr-no-eof", "ReadAt(%d,%d) past the end = %d,%v", ln, off, n, err)
				}
			}
			// In-order reads of a declared section ride on one request.
			if laneOK && honest {
				if abs == seq {
					if s.total > 1 && s.reqs > 0 && seq != base {
						c.Fail("hr-lane-extra-request", "in-order read at %d made another request (%v)", off, s.reqLog)
					}
					seq += int64(n)
					if err == io.EOF {
						laneOK = false
					}
				} else if s.reqs > 0 || abs < end {
					laneOK = false
				}
			}
			// Bounded reads release their response.
			if !lanes && s.openBodies(len(s.bodies)) != 0 {
				c.Fail("hr-body-leak", "%d bodies open after a read", s.openBodies(len(s.bodies)))
			}
			if s.openBodies(len(s.bodies)) > 2 {
				c.Fail("hr-body-leak", "%d bodies open", s.openBodies(len(s.bodies)))
			}
		}
		md, ok := r.Metadata()
		if ok && pinned >= 0 && md.Size != int64(len(s.vers[pinned])) {
			c.Fail("hr-metadata", "Metadata().Size=%d, object has %d", md.Size, len(s.vers[pinned]))
		}
		c.Distinct(c.History())
		_ = r.Close()
		waitClosed(c, s, len(s.bodies))
	}
}

// waitClosed waits for detached closers of the first n bodies; one still open
// then is a leak.
func waitClosed(c *core.C, s *hserver, n int) {
	for i := 0; i < 20000; i++ {
		if s.openBodies(n) == 0 {
			return
		}
		if i > 100 {
			time.Sleep(time.Millisecond)
		}
	}
	c.Fail("hr-body-leak", "%d response bodies still open after they were done with", s.openBodies(len(s.bodies)))
}

func init() {
	core.Register(&core.Property{
		ID: "S06",
		Rule: "every object size, validator configuration, prior knowledge, constructor, operation sequence and every placement of a bounded number of server deviations " +
			"(23 kinds, object change among them) within the bounds; bytes, EOF, error kind, request count and body release are judged against the object versions the server holds",
		Assumptions: []string{"an object change that alters neither length nor any validator is undetectable and not explored"},
		Scenarios: func(th bool) []core.Scenario {
			if th {
				return []core.Scenario{
					{Name: "bounded", Bound: "sizes 0,1,3; 3 ops; 1 deviation", Body: rangeOps([]int{0, 1, 3}, 3, 1, false, false)},
					{Name: "bounded2", Bound: "size 2; 3 ops; 2 deviations; small alphabet", Body: rangeOps([]int{2}, 3, 2, false, true)},
					{Name: "lane", Bound: "sizes 0,1,3; 2 ops; 1 deviation", Body: rangeOps([]int{0, 1, 3}, 2, 1, true, false)},
					{Name: "lane2", Bound: "size 2; 3 ops; 2 deviations; small alphabet", Body: rangeOps([]int{2}, 3, 2, true, true)},
					{Name: "lane-honest", Bound: "sizes 2,4; 4 ops; no deviation; small alphabet", Body: rangeOps([]int{2, 4}, 4, 0, true, true)},
				}
			}
			return []core.Scenario{
				{Name: "bounded", Bound: "sizes 0,1,2; 2 ops; 1 deviation", Body: rangeOps([]int{0, 1, 2}, 2, 1, false, false)},
				{Name: "bounded3", Bound: "sizes 1,2; 3 ops; 1 deviation; small alphabet", Body: rangeOps([]int{1, 2}, 3, 1, false, true)},
				{Name: "bounded2", Bound: "size 2; 2 ops; 2 deviations; small alphabet", Body: rangeOps([]int{2}, 2, 2, false, true)},
				{Name: "lane", Bound: "sizes 0,2; 2 ops; 1 deviation; small alphabet", Body: rangeOps([]int{0, 2}, 2, 1, true, true)},
				{Name: "lane-honest", Bound: "sizes 2,3; 3 ops; no deviation; small alphabet", Body: rangeOps([]int{2, 3}, 3, 0, true, true)},
			}
		},
	})
}

// ---- S08: credentials ----

type urlDoer struct {
	resp func(*http.Request) (*http.Response, error)
}

func (d urlDoer) Do(r *http.Request) (*http.Response, error) { return d.resp(r) }

// secretURLs carry a credential in every place a URL can.
var secretURLs = []string{
	"http://user:" + secret + "@h/p?x=1",
	"http://" + secret + "@h/p",
	"http://h/p?sig=" + secret,
	"http://h/p#" + secret,
	"http://h/p?sig=" + secret + "#f",
	"https://u:" + secret + "@h:8080/a%20b?tok=" + secret,
	"http://h/\x7f?sig=" + secret,   // does not parse: control character
	"http://u:" + secret + "@h/%zz", // does not parse: bad escape
	"http://[::1?sig=" + secret,     // does not parse: bad host
	"://" + secret,                  // does not parse: no scheme
	"http://h/p?" + secret,
}

func credentials(c *core.C) {
	carried := secretURLs[c.Choose(len(secretURLs))]
	base := core.Pick(c, hURL, "http://h/p?sig="+secret, "http://"+secret+"@h/p")
	leaf := error(&url.Error{Op: "Get", URL: carried, Err: errFault})
	shape := c.Choose(5)
	switch shape {
	case 1:
		leaf = fmt.Errorf("retry: %w", leaf)
	case 2: // a client inside a client
		leaf = &url.Error{Op: "Get", URL: "http://outer/p?sig=" + secret, Err: leaf}
	case 3:
		leaf = &url.Error{Op: "Get", URL: "http://outer/p", Err: fmt.Errorf("proxy: %w", leaf)}
	case 4:
		leaf = &url.Error{Op: "Get", URL: "http://a/", Err: &url.Error{Op: "Get", URL: "http://b/?" + secret, Err: leaf}}
	}
	mode := c.Choose(4) // 0 transport, 1 body failure, 2 bad status, 3 bad answer
	d := urlDoer{func(r *http.Request) (*http.Response, error) {
		h := http.Header{}
		switch mode {
		case 0:
			return nil, leaf
		case 1:
			h.Set("Content-Range", "bytes 0-3/4")
			return &http.Response{StatusCode: 206, Header: h, Request: r, ContentLength: 4, Body: io.NopCloser(io.MultiReader(strings.NewReader("a"), failing{leaf}))}, nil
		case 2:
			return &http.Response{StatusCode: 403, Header: h, Request: r, Body: io.NopCloser(strings.NewReader(""))}, nil
		}
		h.Set("Content-Range", "bytes 9-8/4")
		return &http.Response{StatusCode: core.Pick(c, 206, 200), Header: h, Request: r, ContentLength: 4, Body: io.NopCloser(strings.NewReader("abcd"))}, nil
	}}
	c.Step()
	c.Logf("base=%q carried=%q shape=%d mode=%d", base, carried, shape, mode)
	var errs []error
	add := func(err error) {
		if err != nil {
			errs = append(errs, err)
		}
	}
	which := c.Choose(8)
	switch which {
	case 0, 1, 2:
		var r *httprange.ReaderAt
		var err error
		if which == 1 {
			r, err = httprange.NewRange(context.Background(), base, 0, 4, &httprange.Config{Client: d})
		} else {
			r, err = httprange.New(context.Background(), base, &httprange.Config{Client: d})
		}
		if err != nil {
			c.Fail("hr-new", "%v", err)
		}
		if which == 2 {
			add(r.Probe(context.Background()))
		} else {
			p := make([]byte, 4)
			_, err = r.ReadAt(p, 0)
			add(err)
			_, err = r.ReadAt(p, 2)
			add(err)
		}
		_ = r.Close()
	case 3: // a URL refused at construction
		_, err := httprange.New(context.Background(), carried, nil)
		add(err)
		_, err = httprange.NewRange(context.Background(), carried, 0, 1, nil)
		add(err)
		_, err = httprange.New(context.Background(), strings.Replace(carried, "http", "ftp", 1), nil)
		add(err)
	default:
		u, _ := url.Parse(base)
		cli := &fileserver.HTTPClient{BaseURL: u, Client: d}
		switch which {
		case 4:
			rc, _, err := cli.Get(context.Background(), "o", 0)
			add(err)
			if rc != nil {
				_ = rc.Close()
			}
		case 5:
			_, err := cli.Stat(context.Background(), "o")
			add(err)
		case 6:
			add(cli.Put(context.Background(), "o", 1, strings.NewReader("x")))
		case 7:
			rc, _, err := cli.Get(context.Background(), "o", 3)
			add(err)
			if rc != nil {
				_ = rc.Close()
			}
		}
	}
	for _, err := range errs {
		leak(c, err)
		if mode == 0 && which != 3 && !errors.Is(err, errFault) {
			c.Fail("redaction-loses-cause", "the underlying error is gone from %v", err)
		}
	}
	if len(errs) == 0 {
		c.Outcome("no error")
	} else {
		c.Outcome("error")
	}
	c.Distinct(fmt.Sprint(errs))
}

type failing struct{ err error }

func (f failing) Read([]byte) (int, error) { return 0, f.err }

func init() {
	core.Register(&core.Property{
		ID:          "S08",
		Rule:        "every combination of credential position in the URL, error shape, failure mode and entry point listed",
		Assumptions: []string{"credentials sit in userinfo, query or fragment of a URL; text a transport puts into its own error message is not the module's to redact"},
		Scenarios: func(th bool) []core.Scenario {
			return []core.Scenario{{Name: "errors", Bound: "3 base URLs x 11 carried URLs x 5 error shapes x 4 failure modes x 8 entry points", Body: credentials}}
		},
	})
}
