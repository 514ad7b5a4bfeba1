package streams

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"
	"sync"

	"github.com/ngicks/go-fsys-helper/stream/fileserver"
	"verif.local/mc/core"
)

// ---- S03: chunked source and sink ----

// store is an object server with injectable faults.
type store struct {
	c      *core.C
	obj    map[string][]byte
	faults int
	hit    int
	puts   []string
	gets   int
	open   int
	pieces bool
}

type storeRC struct {
	s      *store
	r      *bytes.Reader
	dead   bool
	closed bool
}

func (r *storeRC) Read(p []byte) (int, error) {
	if r.closed {
		r.s.c.Fail("chunk-read-after-close", "read after close")
	}
	if r.dead {
		return 0, errFault
	}
	if r.s.faults > 0 && r.s.c.Choose(2) == 1 {
		r.s.faults--
		r.s.hit++
		r.dead = true
		return 0, errFault
	}
	if r.s.pieces && len(p) > 1 {
		p = p[:1]
	}
	return r.r.Read(p)
}

func (r *storeRC) Close() error {
	if !r.closed {
		r.closed = true
		r.s.open--
	}
	return nil
}

func (s *store) Get(ctx context.Context, name string, off int64) (io.ReadCloser, int64, error) {
	s.gets++
	if s.faults > 0 && s.c.Choose(2) == 1 {
		s.faults--
		s.hit++
		return nil, 0, errFault
	}
	b, ok := s.obj[name]
	if !ok {
		return nil, 0, &fs.PathError{Op: "get", Path: name, Err: fs.ErrNotExist}
	}
	if off > 0 && off >= int64(len(b)) {
		return nil, 0, errors.New("416 range not satisfiable")
	}
	s.open++
	return &storeRC{s: s, r: bytes.NewReader(b[off:])}, int64(len(b)), nil
}

func (s *store) Stat(ctx context.Context, name string) (int64, error) {
	if s.faults > 0 && s.c.Choose(2) == 1 {
		s.faults--
		s.hit++
		return 0, errFault
	}
	b, ok := s.obj[name]
	if !ok {
		return 0, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	return int64(len(b)), nil
}

func (s *store) Put(ctx context.Context, name string, size int64, r io.Reader) error {
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	if int64(len(b)) != size {
		s.c.Fail("chunk-put-size", "Put(%s) declared %d bytes, body has %d", name, size, len(b))
	}
	if s.faults > 0 {
		switch s.c.Choose(3) {
		case 1: // rejected
			s.faults--
			s.hit++
			return errFault
		case 2: // stored, acknowledgement lost
			s.faults--
			s.hit++
			s.obj[name] = b
			return errFault
		}
	}
	s.obj[name] = b
	s.puts = append(s.puts, name)
	return nil
}

func chunkName(i int) string { return "c" + strconv.Itoa(i) }

func content(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i)
	}
	return b
}

// chunkPush pushes an object with faults, retrying from State each time.
func chunkPush(maxTotal, maxChunk, attempts, nfault int) func(c *core.C) {
	return func(c *core.C) {
		total := c.Choose(maxTotal + 1)
		cs := 1 + c.Choose(maxChunk)
		data := content(total)
		st := &store{c: c, obj: map[string][]byte{}, faults: nfault}
		ctx := context.Background()
		sink := fileserver.NewChunkedSink(st, chunkName, int64(total), int64(cs))
		c.Logf("total=%d chunk=%d", total, cs)
		// Left over from an earlier push, perhaps of another object: a chunk that is
		// the object's own or has another size.
		leftName, left := "", ""
		if c.Bool() {
			i := c.Choose(total/cs + 1)
			n := c.Choose(cs + 2)
			b := append([]byte(nil), data[min(i*cs, total):min(i*cs+cs, total)]...)
			if len(b) != n {
				b = bytes.Repeat([]byte("#"), n)
			}
			leftName, left = chunkName(i), string(b)
			st.obj[leftName] = b
			c.Logf("leftover chunk %d with %d bytes", i, len(b))
		}
		for a := 0; ; a++ {
			if a >= attempts {
				st.faults = 0
			}
			if a > attempts+1 {
				c.Fail("chunk-push-stuck", "push does not complete without faults")
			}
			c.Step()
			hit := st.hit
			off, complete, err := sink.State(ctx)
			c.Logf("State=%d,%v,%v", off, complete, err)
			if err != nil {
				if st.hit == hit {
					c.Fail("chunk-state-error", "State: %v", err)
				}
				continue
			}
			if st.hit != hit {
				c.Fail("chunk-state-swallowed", "State hid a server error")
			}
			if off < 0 || off > int64(total) || (off != int64(total) && off%int64(cs) != 0) {
				c.Fail("chunk-state-offset", "State offset %d of %d (chunk %d)", off, total, cs)
			}
			got := assembled(st, total, cs)
			if int(off) > len(got) || !bytes.Equal(got[:off], data[:off]) {
				c.Fail("chunk-state-overclaims", "State claims %d bytes, server has %q", off, got)
			}
			b0, has0 := st.obj[chunkName(0)]
			has0 = has0 && len(b0) == min(cs, total)
			if complete {
				if !bytes.Equal(got, data) || !has0 {
					c.Fail("chunk-false-complete", "State says complete, server has %q want %q (chunk 0 exists: %v)", got, data, has0)
				}
				break
			}
			if bytes.Equal(got, data) && len(got) == total && has0 {
				c.Fail("chunk-false-incomplete", "all chunks are there, State says offset %d incomplete", off)
			}
			hit = st.hit
			// The local reader may be truncated or fail.
			src := data[off:]
			var r io.Reader = bytes.NewReader(src)
			mode := 0
			if st.faults > 0 && len(src) > 0 {
				mode = c.Choose(3)
			}
			cut := len(src)
			switch mode {
			case 1:
				st.faults--
				cut = c.Choose(len(src))
				r = bytes.NewReader(src[:cut])
			case 2:
				st.faults--
				cut = c.Choose(len(src))
				r = io.MultiReader(bytes.NewReader(src[:cut]), errReader{})
			}
			err = sink.Append(ctx, off, r)
			c.Logf("Append(@%d, mode %d, %d bytes)=%v", off, mode, cut, err)
			if err == nil && (st.hit != hit || mode == 2) {
				c.Fail("chunk-append-swallowed", "Append returned nil after a failure")
			}
			if err != nil && st.hit == hit && mode == 0 {
				c.Fail("chunk-append-error", "Append: %v", err)
			}
			for n, b := range st.obj {
				i, _ := strconv.Atoi(n[1:])
				lo := i * cs
				if n == leftName && string(b) == left {
					continue // not replaced yet
				}
				if lo > total || !bytes.HasPrefix(data[min(lo, total):], b) {
					c.Fail("chunk-wrong-bytes", "chunk %d holds %q of %q (chunk size %d)", i, b, data, cs)
				}
			}
			if err := sink.Commit(ctx); err != nil {
				c.Fail("chunk-commit", "Commit: %v", err)
			}
		}
		c.Distinct(c.History())
	}
}

var spoolMu sync.Mutex

// chunkSpool pushes while the spooling directory is watched, or missing, and
// asks for offsets no chunk starts at.
func chunkSpool(c *core.C) {
	spoolMu.Lock()
	defer spoolMu.Unlock()
	dir, err := os.MkdirTemp("", "spool")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	old := os.Getenv("TMPDIR")
	defer os.Setenv("TMPDIR", old)
	_ = os.Setenv("TMPDIR", dir)
	total, cs := 1+c.Choose(5), 1+c.Choose(3)
	data := content(total)
	st := &store{c: c, obj: map[string][]byte{}}
	sink := fileserver.NewChunkedSink(st, chunkName, int64(total), int64(cs))
	ctx := context.Background()
	litter := func(when string) {
		es, err := os.ReadDir(dir)
		if err != nil || len(es) > 0 {
			c.Fail("chunk-spool-litter", "%s: %v left in the temporary directory (%v)", when, es, err)
		}
	}
	missing := c.Bool()
	c.Logf("total %d chunk %d, without a temporary directory: %v", total, cs, missing)
	if missing {
		_ = os.Setenv("TMPDIR", dir+"/missing")
		err := sink.Append(ctx, 0, bytes.NewReader(data))
		if !errors.Is(err, fs.ErrNotExist) || len(st.obj) > 0 {
			c.Fail("chunk-spool-error", "without a temporary directory: %v, %d chunks", err, len(st.obj))
		}
		_ = os.Setenv("TMPDIR", dir)
	}
	for _, off := range []int{1, 2, 3, cs - 1, cs + 1, -1} {
		c.Step()
		if off%cs == 0 {
			continue
		}
		if err := sink.Append(ctx, int64(off), bytes.NewReader(data[min(max(off, 0), total):])); err == nil || len(st.obj) > 0 {
			c.Fail("chunk-misaligned", "Append at %d with chunks of %d: %v, %d chunks put", off, cs, err, len(st.obj))
		}
		litter("a misaligned Append")
	}
	st.faults = 1
	var r io.Reader = bytes.NewReader(data)
	switch cut := c.Choose(total); c.Choose(3) {
	case 1:
		r = bytes.NewReader(data[:cut])
	case 2:
		r = io.MultiReader(bytes.NewReader(data[:cut]), errReader{})
	}
	err = sink.Append(ctx, 0, r)
	litter(fmt.Sprint("Append: ", err))
	st.faults = 0
	off, complete, err := sink.State(ctx)
	if err == nil && !complete {
		err = sink.Append(ctx, off, bytes.NewReader(data[off:]))
	}
	if err != nil || !bytes.Equal(assembled(st, total, cs), data) {
		c.Fail("chunk-push-stuck", "resumed at %d: %v, server has %q of %q", off, err, assembled(st, total, cs), data)
	}
	litter("a finished push")
}

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, errFault }

// assembled is the prefix of the object held in complete chunks.
func assembled(st *store, total, cs int) []byte {
	var out []byte
	for i := 0; i*cs < total; i++ {
		b, ok := st.obj[chunkName(i)]
		want := min(cs, total-i*cs)
		if !ok || len(b) != want {
			return out
		}
		out = append(out, b...)
	}
	return out
}

// chunkPull reads a stored object back from every offset.
func chunkPull(maxTotal, maxChunk, nfault int) func(c *core.C) {
	return func(c *core.C) {
		total := c.Choose(maxTotal + 1)
		cs := 1 + c.Choose(maxChunk)
		data := content(total)
		st := &store{c: c, obj: map[string][]byte{}, faults: nfault, pieces: c.Bool()}
		n := 0
		for i := 0; i*cs < total; i++ {
			st.obj[chunkName(i)] = append([]byte(nil), data[i*cs:min(total, i*cs+cs)]...)
			n++
		}
		damaged := -1
		how := 0
		if n > 0 && c.Bool() {
			damaged = c.Choose(n)
			how = 1 + c.Choose(3)
			nm := chunkName(damaged)
			switch how {
			case 1:
				delete(st.obj, nm)
			case 2:
				st.obj[nm] = st.obj[nm][:len(st.obj[nm])-1]
			case 3:
				st.obj[nm] = append(st.obj[nm], '!')
			}
		}
		src := fileserver.NewChunkedSource(st, chunkName, int64(total), int64(cs))
		off := int64(c.Choose(total+3)) - 1
		bl := 1 + c.Choose(min(total+1, 5))
		c.Logf("total=%d chunk=%d damaged=%d(how %d) open@%d buf=%d", total, cs, damaged, how, off, bl)
		rc, err := src.Open(context.Background(), off)
		if off < 0 || off > int64(total) {
			if err == nil {
				c.Fail("chunk-open-range", "Open(%d) of %d succeeded", off, total)
			}
			return
		}
		if err != nil {
			if st.hit == 0 && damaged < 0 {
				c.Fail("chunk-open-error", "Open(%d): %v", off, err)
			}
			return
		}
		var got []byte
		for i := 0; ; i++ {
			if i > 4*total+10 {
				c.Fail("chunk-no-end", "no end")
			}
			c.Step()
			p := make([]byte, bl)
			var k int
			k, err = rc.Read(p)
			got = append(got, p[:k]...)
			if err != nil {
				break
			}
		}
		c.Logf("read %q err=%v gets=%d", got, err, st.gets)
		want := data[off:]
		if err == io.EOF {
			if !bytes.Equal(got, want) {
				c.Fail("chunk-silent-damage", "read %q and io.EOF, want %q", got, want)
			}
			if st.hit > 0 {
				c.Fail("chunk-fault-swallowed", "a server failure was not reported")
			}
			first := int(off) / cs
			if damaged >= first && how == 2 && off < int64(total) {
				c.Fail("chunk-short-unreported", "chunk %d is short, read ended with io.EOF", damaged)
			}
			if damaged < 0 && st.gets > n-first && off < int64(total) {
				c.Fail("chunk-many-gets", "%d GETs for %d chunks", st.gets, n-first)
			}
		} else {
			if st.hit == 0 && damaged < 0 {
				c.Fail("chunk-spurious-error", "%v", err)
			}
			// Whatever was handed out before the error is the object's, except that an
			// over-long chunk may show its surplus together with the size error.
			if how != 3 && !bytes.HasPrefix(want, got) {
				c.Fail("chunk-wrong-bytes", "read %q, want a prefix of %q", got, want)
			}
		}
		if err := rc.Close(); err != nil {
			c.Fail("chunk-close", "Close: %v", err)
		}
		if st.open != 0 {
			c.Fail("chunk-leak", "%d response bodies left open", st.open)
		}
		c.Distinct(c.History())
	}
}

func init() {
	core.Register(&core.Property{
		ID:          "S03",
		Rule:        "every object size, chunk size, leftover chunk, damage and placement of server/reader faults within the bounds; the server's stored objects and the bytes read back are compared with the pushed content",
		Assumptions: []string{"the object server stores a PUT body atomically or not at all"},
		Scenarios: func(th bool) []core.Scenario {
			f, t := 2, 5
			if th {
				f, t = 3, 6
			}
			return []core.Scenario{
				{Name: "pull", Bound: "object 0..7 bytes, chunks of 1..4, one damaged chunk, 1 server fault", Body: chunkPull(7, 4, 1)},
				{Name: "push", Bound: fmt.Sprintf("object 0..%d bytes, chunks of 1..4, one leftover, %d faults over %d attempts", t, f, f), Body: chunkPush(t, 4, f, f)},
				{Name: "spool", Bound: "objects of 1..5 bytes, chunks of 1..3, a short or failing reader, one fault, no temporary directory, misaligned offsets", Body: chunkSpool},
			}
		},
	})
}

// ---- S05: HTTP object client against every server answer ----

type body struct {
	io.Reader
	closed int
}

func (b *body) Close() error { b.closed++; return nil }

type scriptDoer struct {
	c    *core.C
	req  *http.Request
	sent []byte
	resp func(req *http.Request) (*http.Response, error)
}

func (d *scriptDoer) Do(req *http.Request) (*http.Response, error) {
	d.req = req
	if req.Body != nil {
		d.sent, _ = io.ReadAll(req.Body)
	}
	return d.resp(req)
}

func getResponses(c *core.C) {
	const obj = "0123456789"
	off := int64(core.Pick(c, 0, 3, 9, 10))
	status := core.Pick(c, 200, 206, 204, 201, 301, 304, 403, 404, 410, 416, 500)
	// what range the server actually sends
	from := int64(core.Pick(c, 0, 3, 9, 4))
	to := int64(core.Pick(c, 9, 3, 5))
	total := core.Pick(c, "10", "*", "", "x", "-1", "11")
	form := c.Choose(7)
	var cr string
	switch form {
	case 0:
		cr = fmt.Sprintf("bytes %d-%d/%s", from, to, total)
	case 1:
		cr = ""
	case 2:
		cr = "bytes */" + total
	case 3:
		cr = fmt.Sprintf("items %d-%d/%s", from, to, total)
	case 4:
		cr = fmt.Sprintf("bytes %d-%d", from, to)
	case 5:
		cr = "bytes /" + total
	case 6:
		cr = fmt.Sprintf("bytes x-%d/%s", to, total)
	}
	b := &body{}
	cl := int64(len(obj))
	switch {
	case status == 206 && from <= to:
		b.Reader = strings.NewReader(obj[from : to+1])
		cl = to - from + 1
	default:
		b.Reader = strings.NewReader(obj)
	}
	if c.Bool() {
		cl = -1
	}
	name := core.Pick(c, "o", "a/b", "..", "sp ace?q#f%2F")
	d := &scriptDoer{c: c, resp: func(req *http.Request) (*http.Response, error) {
		h := http.Header{}
		if cr != "" {
			h.Set("Content-Range", cr)
		}
		return &http.Response{StatusCode: status, Header: h, Body: b, ContentLength: cl, Request: req}, nil
	}}
	base, _ := url.Parse(core.Pick(c, "http://h/p", "http://h/p/", "http://h"))
	cli := &fileserver.HTTPClient{BaseURL: base, Client: d, Header: http.Header{"X-Tok": {"t1", "t2"}}}
	c.Step()
	rc, tot, err := cli.Get(context.Background(), name, off)
	c.Logf("Get(%q,%d) status=%d content-range=%q length=%d -> total=%d err=%v", name, off, status, cr, cl, tot, err)

	// The request.
	if got := d.req.URL.EscapedPath(); got != strings.TrimRight(base.Path, "/")+"/"+url.PathEscape(name) {
		c.Fail("fs-url", "object %q requested as %q", name, got)
	}
	if d.req.URL.RawQuery != "" || d.req.URL.Fragment != "" || d.req.URL.Host != "h" {
		c.Fail("fs-url", "object name %q leaked into query/fragment/host: %s", name, d.req.URL)
	}
	if rg := d.req.Header.Get("Range"); (off > 0 && rg != fmt.Sprintf("bytes=%d-", off)) || (off == 0 && rg != "") {
		c.Fail("fs-range-header", "offset %d requested with Range %q", off, rg)
	}
	if len(d.req.Header.Values("X-Tok")) != 2 {
		c.Fail("fs-headers", "static headers not applied: %v", d.req.Header)
	}
	// The answer.
	if err != nil {
		if b.closed != 1 {
			c.Fail("fs-body-leak", "error, body closed %d times", b.closed)
		}
		notExist := status == 404 || status == 410
		if errors.Is(err, fs.ErrNotExist) != notExist {
			c.Fail("fs-notexist", "status %d mapped to %v", status, err)
		}
		good := status == 200 && off == 0 || status == 206 && form == 0 && from == off && to >= from && total == "10" && to == 9
		if good {
			c.Fail("fs-get-refused", "a correct answer was refused: %v", err)
		}
		return
	}
	if b.closed != 0 {
		c.Fail("fs-body-closed", "body closed before it was handed out")
	}
	switch {
	case status == 200 && off == 0:
		if tot != cl {
			c.Fail("fs-total", "total %d, Content-Length %d", tot, cl)
		}
	case status == 206:
		if form != 0 && form != 3 {
			c.Fail("fs-bad-range-accepted", "206 with Content-Range %q accepted", cr)
		}
		if from != off {
			c.Fail("fs-wrong-offset", "asked for offset %d, server sent %q, client handed it out as offset %d", off, cr, off)
		}
		if n, perr := strconv.ParseInt(total, 10, 64); perr != nil || tot != n {
			c.Fail("fs-total", "total %d for Content-Range %q", tot, cr)
		}
	default:
		c.Fail("fs-bad-status", "offset %d answered %d accepted", off, status)
	}
	_ = rc.Close()
	if b.closed == 0 {
		c.Fail("fs-body-leak", "Close did not close the body")
	}
}

func statPutResponses(c *core.C) {
	status := core.Pick(c, 200, 201, 204, 206, 301, 400, 403, 404, 410, 500)
	cl := int64(core.Pick(c, 5, 0, -1))
	b := &body{Reader: strings.NewReader("")}
	transport := c.Bool()
	terr := &url.Error{Op: "Head", URL: "http://u:sec@h/p/o?tok=sec#sec", Err: errFault}
	d := &scriptDoer{c: c, resp: func(req *http.Request) (*http.Response, error) {
		if transport {
			return nil, terr
		}
		return &http.Response{StatusCode: status, Header: http.Header{}, Body: b, ContentLength: cl, Request: req}, nil
	}}
	base, _ := url.Parse("http://h/p")
	cli := &fileserver.HTTPClient{BaseURL: base, Client: d}
	c.Step()
	var err error
	if c.Bool() {
		var n int64
		n, err = cli.Stat(context.Background(), "o")
		c.Logf("Stat status=%d length=%d transport=%v -> %d,%v", status, cl, transport, n, err)
		ok := !transport && (status == 200 || status == 204) && cl >= 0
		if ok != (err == nil) || (ok && n != cl) {
			if !(err != nil && !transport && status == 204) {
				c.Fail("fs-stat", "Stat = %d,%v", n, err)
			}
		}
		if !transport && errors.Is(err, fs.ErrNotExist) != (status == 404 || status == 410) {
			c.Fail("fs-notexist", "status %d mapped to %v", status, err)
		}
	} else {
		payload := core.Pick(c, "", "x", "hello")
		err = cli.Put(context.Background(), "o", int64(len(payload)), strings.NewReader(payload))
		c.Logf("Put status=%d transport=%v -> %v", status, transport, err)
		if ok := !transport && status >= 200 && status < 300; ok != (err == nil) {
			c.Fail("fs-put", "status %d transport error %v: Put = %v", status, transport, err)
		}
		if string(d.sent) != payload || d.req.ContentLength != int64(len(payload)) || d.req.Method != "PUT" {
			c.Fail("fs-put-body", "sent %s %q length %d", d.req.Method, d.sent, d.req.ContentLength)
		}
	}
	if transport {
		if !errors.Is(err, errFault) {
			c.Fail("fs-transport-error", "transport failure hidden: %v", err)
		}
	} else if b.closed != 1 {
		c.Fail("fs-body-leak", "body closed %d times", b.closed)
	}
}

func init() {
	core.Register(&core.Property{
		ID:          "S05",
		Rule:        "the full product of requested offset, status code, Content-Range shape, lengths, object names and base URLs listed in the scenario",
		Assumptions: []string{"the transport returns the response the server sent"},
		Scenarios: func(th bool) []core.Scenario {
			return []core.Scenario{
				{Name: "get", Bound: "4 offsets x 11 statuses x 4x3x6 ranges x 7 shapes x lengths x 4 names x 3 bases", Body: getResponses},
				{Name: "statput", Bound: "10 statuses x 3 lengths x transport failure x operation", Body: statPutResponses},
			}
		},
	})
}
