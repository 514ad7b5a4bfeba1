// Package streams checks the stream module: concatenating readers, sequential
// readers, chunked transfer and the HTTP object client.
package streams

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"

	"github.com/ngicks/go-fsys-helper/stream"
	"verif.local/mc/core"
)

var errFault = errors.New("injected fault")

// seg is a segment whose real length may differ from the declared one.
type seg struct {
	c      *core.C
	data   []byte
	eager  bool // returns io.EOF together with the last bytes
	faults *int
	hit    *bool
	closed int
	cerr   error
}

func (s *seg) ReadAt(p []byte, off int64) (int, error) {
	if s.closed > 0 {
		return 0, errors.New("read after close")
	}
	if off < 0 {
		return 0, errors.New("negative offset reached the segment")
	}
	rest := []byte(nil)
	if off < int64(len(s.data)) {
		rest = s.data[off:]
	}
	n := copy(p, rest)
	if s.faults != nil && *s.faults > 0 {
		switch s.c.Choose(3) {
		case 1:
			*s.faults--
			*s.hit = true
			return 0, errFault
		case 2:
			*s.faults--
			*s.hit = true
			return n / 2, errFault
		}
	}
	if n < len(p) || (s.eager && n == len(rest) && len(p) > 0) {
		return n, io.EOF
	}
	return n, nil
}

func (s *seg) Close() error { s.closed++; return s.cerr }

type concatWorld struct {
	segs  []*seg
	decl  []int
	total int
	all   []byte // declared content; short areas hold 0xff
	owner []int  // segment of each byte
	inner []int  // offset in segment of each byte
	short []bool // byte is declared but missing
}

func newConcat(c *core.C, decl, delta []int, eager bool, faults *int, hit *bool) (*concatWorld, []stream.SizedReaderAt) {
	w := &concatWorld{decl: decl}
	var in []stream.SizedReaderAt
	for i, d := range decl {
		real := d + delta[i]
		if real < 0 {
			real = 0
		}
		s := &seg{c: c, eager: eager, faults: faults, hit: hit}
		for j := 0; j < real; j++ {
			s.data = append(s.data, byte('a'+(i*7+j)%26))
		}
		for j := 0; j < d; j++ {
			b := byte(0xff)
			if j < real {
				b = s.data[j]
			}
			w.all = append(w.all, b)
			w.owner = append(w.owner, i)
			w.inner = append(w.inner, j)
			w.short = append(w.short, j >= real)
		}
		w.segs = append(w.segs, s)
		in = append(in, stream.SizedReaderAt{R: s, Size: int64(d)})
	}
	w.total = len(w.all)
	return w, in
}

// check judges one Read or ReadAt result. readAt demands a full buffer.
// It returns false when the position after the call is unspecified.
func (w *concatWorld) check(c *core.C, what string, p []byte, n int, err error, pos int64, readAt, hit bool) bool {
	if n < 0 || n > len(p) {
		c.Fail("concat-count", "%s returned n=%d for a %d byte buffer", what, n, len(p))
	}
	if pos >= int64(w.total) || pos < 0 {
		if n != 0 || err == nil {
			c.Fail("concat-past-end", "%s at %d of %d returned n=%d err=%v", what, pos, w.total, n, err)
		}
		return true
	}
	var me *stream.MultiReadError
	if err != nil && err != io.EOF {
		if !errors.As(err, &me) {
			c.Fail("concat-error-kind", "%s: unexpected error %v", what, err)
		}
		if me.Index < 0 || me.Index >= len(w.segs) {
			c.Fail("concat-error-index", "%s: error index %d out of range: %v", what, me.Index, err)
		}
	}
	if errors.Is(err, errFault) != hit {
		c.Fail("concat-fault-reporting", "%s: segment failed=%v but err=%v", what, hit, err)
	}
	if errors.Is(err, stream.ErrInvalidSize) {
		if len(w.segs[me.Index].data) <= w.decl[me.Index] {
			c.Fail("concat-spurious-invalid-size", "%s: segment %d is not longer than declared: %v", what, me.Index, err)
		}
		return false
	}
	// Delivered bytes must be the concatenation's.
	for i := 0; i < n; i++ {
		q := int(pos) + i
		if q >= w.total {
			c.Fail("concat-too-much", "%s at %d returned %d bytes, only %d exist", what, pos, n, w.total-int(pos))
		}
		if w.short[q] {
			c.Fail("concat-invented-byte", "%s at %d delivered a byte for position %d, which segment %d does not have", what, pos, q, w.owner[q])
		}
		if p[i] != w.all[q] {
			c.Fail("concat-wrong-byte", "%s at %d: byte %d is %q, want %q", what, pos, q, p[i], w.all[q])
		}
	}
	next := int(pos) + n
	if me != nil {
		if me.TotalOff < pos || me.TotalOff > int64(next) {
			c.Fail("concat-error-offset", "%s at %d (n=%d) reports total offset %d", what, pos, n, me.TotalOff)
		}
		// The failing segment is the one holding the reported offset.
		if me.TotalOff < int64(w.total) && w.owner[me.TotalOff] != me.Index {
			c.Fail("concat-error-index", "%s: offset %d is in segment %d, error says %d", what, me.TotalOff, w.owner[me.TotalOff], me.Index)
		}
		if me.TotalOff < int64(w.total) && int64(w.inner[me.TotalOff]) != me.ReaderOff {
			c.Fail("concat-error-readeroff", "%s: offset %d is at %d in its segment, error says %d", what, me.TotalOff, w.inner[me.TotalOff], me.ReaderOff)
		}
	}
	if err == io.EOF && next < w.total {
		c.Fail("concat-silent-truncation", "%s at %d returned n=%d and io.EOF with %d declared bytes left", what, pos, n, w.total-next)
	}
	if errors.Is(err, io.ErrUnexpectedEOF) && (next >= w.total || !w.short[next]) {
		c.Fail("concat-spurious-unexpected-eof", "%s at %d n=%d: %v although the byte at %d exists", what, pos, n, err, next)
	}
	if readAt && n < len(p) && err == nil {
		c.Fail("concat-readat-short-nil", "%s at %d returned %d of %d bytes with a nil error", what, pos, n, len(p))
	}
	if !readAt && len(p) > 0 && n == 0 && err == nil {
		c.Fail("concat-read-zero-nil", "%s at %d made no progress and reported no error", what, pos)
	}
	if err == nil && n == 0 && len(p) > 0 && w.short[next] {
		c.Fail("concat-short-unreported", "%s at %d: missing byte not reported", what, pos)
	}
	return true
}

func concatOps(maxSegs, maxSize, depth int, deltas []int, nfault int) func(c *core.C) {
	return func(c *core.C) {
		k := 1 + c.Choose(maxSegs)
		decl, delta := make([]int, k), make([]int, k)
		for i := range decl {
			decl[i] = c.Choose(maxSize + 1)
			delta[i] = deltas[c.Choose(len(deltas))]
		}
		eager := c.Bool()
		faults := nfault
		hit := false
		w, in := newConcat(c, decl, delta, eager, &faults, &hit)
		r := stream.NewMultiReadAtSeekCloser(in)
		c.Logf("segments declared=%v delta=%v eagerEOF=%v", decl, delta, eager)
		pos := int64(0)
		alive := true
		for step := 0; step < depth && alive; step++ {
			c.Step()
			hit = false
			switch op := c.Choose(6); op {
			case 0, 1, 2:
				p := make([]byte, []int{1, 2, 2 * maxSize}[op])
				n, err := r.Read(p)
				c.Logf("Read(%d)@%d=%d,%v", len(p), pos, n, err)
				alive = w.check(c, fmt.Sprintf("Read(%d)", len(p)), p, n, err, pos, false, hit)
				pos += int64(n)
			case 3:
				wh := c.Choose(3)
				var off, want int64
				t := int64(c.Choose(w.total + 3)) // target: -1 .. total+1
				t--
				switch wh {
				case 0:
					off = t
				case 1:
					off = t - pos
				case 2:
					off = t - int64(w.total)
				}
				want = t
				got, err := r.Seek(off, wh)
				c.Logf("Seek(%d,%d)=%d,%v", off, wh, got, err)
				if t < 0 {
					if err == nil {
						c.Fail("concat-seek-negative", "Seek to %d succeeded", t)
					}
				} else {
					if err != nil || got != want {
						c.Fail("concat-seek", "Seek(%d,%d) from %d = %d,%v want %d", off, wh, pos, got, err, want)
					}
					pos = want
				}
			case 4, 5:
				off := int64(c.Choose(w.total + 2))
				ln := []int{1, maxSize + 2}[op-4]
				p := make([]byte, ln)
				n, err := r.ReadAt(p, off)
				c.Logf("ReadAt(%d,%d)=%d,%v", ln, off, n, err)
				w.check(c, fmt.Sprintf("ReadAt(%d,%d)", ln, off), p, n, err, off, true, hit)
			}
		}
		c.Distinct(c.History())
		_ = r.Close()
		for i, s := range w.segs {
			if s.closed != 1 {
				c.Fail("concat-close", "segment %d closed %d times", i, s.closed)
			}
		}
	}
}

// concatDrain reads to the end with a fixed buffer; nothing may be lost.
func concatDrain(maxSegs, maxSize int) func(c *core.C) {
	return func(c *core.C) {
		k := c.Choose(maxSegs + 1)
		decl, delta := make([]int, k), make([]int, k)
		for i := range decl {
			decl[i] = c.Choose(maxSize + 1)
		}
		if k > 0 {
			delta[c.Choose(k)] = c.Choose(3) - 1
		}
		w, in := newConcat(c, decl, delta, c.Bool(), nil, nil)
		r := stream.NewMultiReadAtSeekCloser(in)
		bl := 1 + c.Choose(maxSize+2)
		c.Logf("segments declared=%v delta=%v buf=%d", decl, delta, bl)
		start := int64(c.Choose(w.total + 1))
		if _, err := r.Seek(start, io.SeekStart); err != nil {
			c.Fail("concat-seek", "Seek(%d): %v", start, err)
		}
		pos := start
		for i := 0; ; i++ {
			if i > w.total*2+10 {
				c.Fail("concat-no-end", "no error after %d reads", i)
			}
			p := make([]byte, bl)
			c.Step()
			n, err := r.Read(p)
			c.Logf("Read@%d=%d,%v", pos, n, err)
			if !w.check(c, "Read", p, n, err, pos, false, false) {
				return
			}
			pos += int64(n)
			if err == io.EOF {
				if pos != int64(w.total) {
					c.Fail("concat-silent-truncation", "drain ended with io.EOF at %d of %d", pos, w.total)
				}
				return
			}
			if err != nil {
				if delta[:k] == nil {
					c.Fail("concat-spurious-error", "%v", err)
				}
				bad := false
				for _, d := range delta {
					if d < 0 {
						bad = true
					}
				}
				if !bad {
					c.Fail("concat-spurious-error", "no segment is short, yet %v", err)
				}
				return
			}
		}
	}
}

// concatMany has more segments than the linear search handles.
func concatMany(n int) func(c *core.C) {
	return func(c *core.C) {
		pat := []int{c.Choose(3), c.Choose(3), c.Choose(3)}
		decl, delta := make([]int, n), make([]int, n)
		for i := range decl {
			decl[i] = pat[i%3]
		}
		w, in := newConcat(c, decl, delta, c.Bool(), nil, nil)
		r := stream.NewMultiReadAtSeekCloser(in)
		off := int64(c.Choose(w.total + 2))
		ln := core.Pick(c, 1, 3, 8, 200)
		p := make([]byte, ln)
		c.Step()
		c.Logf("n=%d pattern=%v off=%d len=%d", n, pat, off, ln)
		if c.Bool() {
			got, err := r.ReadAt(p, off)
			w.check(c, "ReadAt", p, got, err, off, true, false)
			return
		}
		if _, err := r.Seek(off, io.SeekStart); err != nil {
			c.Fail("concat-seek", "Seek(%d): %v", off, err)
		}
		pos := off
		for i := 0; i < 3*n+10; i++ {
			got, err := r.Read(p)
			w.check(c, "Read", p, got, err, pos, false, false)
			pos += int64(got)
			if err == io.EOF {
				return
			}
			if err != nil {
				c.Fail("concat-spurious-error", "%v", err)
			}
		}
		c.Fail("concat-no-end", "no EOF")
	}
}

func init() {
	core.Register(&core.Property{
		ID: "S01",
		Rule: "every segment layout (size, real-length deviation, EOF style), every operation sequence and every placement of one read fault within the bounds; " +
			"a step is judged against the plain concatenation of the segments",
		Assumptions: []string{"segments obey the io.ReaderAt contract apart from having a different real length"},
		Scenarios: func(th bool) []core.Scenario {
			d, m := 3, 2
			if th {
				d, m = 4, 2
			}
			return []core.Scenario{
				{Name: "drain", Bound: "0..4 segments of 0..3 bytes, one short/long by 1, buffers 1..5, every start offset", Body: concatDrain(4, 3)},
				{Name: "built", Bound: "0..3 segments of files or sized readers, one failing Stat, refused seeks", Body: concatBuilt},
				{Name: "many", Bound: "31..41 segments, repeating size patterns, every offset", Body: func(c *core.C) { concatMany(31 + 2*c.Choose(6))(c) }},
				{Name: "ops", Bound: fmt.Sprintf("1..2 segments of 0..%d bytes, deviations -1/0/+1, %d ops, 1 fault", m, d), Body: concatOps(2, m, d, []int{0, -1, 1}, 1)},
				{Name: "ops3", Bound: fmt.Sprintf("1..3 segments of 0..2 bytes, %d ops, exact sizes, 1 fault", d), Body: concatOps(3, 2, d, []int{0}, 1)},
			}
		},
	})
}

// ---- S02: sequential reader over an offset opener ----

type seqWorld struct {
	c       *core.C
	data    []byte // what the source really has
	open    int    // streams currently open
	opens   int
	lastOff int64
	pos     int64 // position of the open stream
	live    *seqStream
	faults  int
	hit     string
	eager   bool
	oneByte bool
}

type seqStream struct {
	w      *seqWorld
	pos    int64
	closed bool
	dead   bool
}

func (w *seqWorld) opener(off int64) (io.ReadCloser, error) {
	w.opens++
	w.lastOff = off
	if w.open != 0 {
		w.c.Fail("seq-two-streams", "open at %d while another stream is open", off)
	}
	if w.faults > 0 && w.c.Choose(2) == 1 {
		w.faults--
		w.hit = "open"
		return nil, errFault
	}
	w.open++
	w.live = &seqStream{w: w, pos: off}
	return w.live, nil
}

func (s *seqStream) Read(p []byte) (int, error) {
	if s.closed {
		s.w.c.Fail("seq-read-after-close", "Read on a closed stream")
	}
	if s.dead {
		s.w.c.Fail("seq-read-after-error", "Read on a stream that failed")
	}
	if len(p) == 0 {
		return 0, nil
	}
	w := s.w
	if w.faults > 0 && w.c.Choose(2) == 1 {
		w.faults--
		w.hit = "read"
		s.dead = true
		n := 0
		if w.c.Bool() && s.pos < int64(len(w.data)) {
			n = copy(p[:1], w.data[s.pos:])
			s.pos += int64(n)
		}
		return n, errFault
	}
	if s.pos >= int64(len(w.data)) {
		return 0, io.EOF
	}
	if w.oneByte {
		p = p[:1]
	}
	n := copy(p, w.data[s.pos:])
	s.pos += int64(n)
	if w.eager && s.pos == int64(len(w.data)) {
		return n, io.EOF
	}
	return n, nil
}

func (s *seqStream) Close() error {
	if s.closed {
		s.w.c.Fail("seq-double-close", "stream closed twice")
	}
	s.closed = true
	s.w.open--
	if s.w.live == s {
		s.w.live = nil
	}
	if s.w.faults > 0 && s.w.c.Choose(2) == 1 {
		s.w.faults--
		s.w.hit = "close"
		return errFault
	}
	return nil
}

func seqOps(maxSize, depth, nfault int) func(c *core.C) {
	return func(c *core.C) {
		size := c.Choose(maxSize + 1)
		real := size
		if size > 0 {
			real += c.Choose(3) - 1
		}
		w := &seqWorld{c: c, eager: c.Bool(), oneByte: c.Bool(), faults: nfault}
		for i := 0; i < real; i++ {
			w.data = append(w.data, byte('A'+i))
		}
		r := stream.NewSeqReaderAt(w.opener, int64(size))
		c.Logf("size=%d real=%d eager=%v onebyte=%v", size, real, w.eager, w.oneByte)
		if r.Size() != int64(size) {
			c.Fail("seq-size", "Size()=%d want %d", r.Size(), size)
		}
		for step := 0; step < depth; step++ {
			c.Step()
			w.hit = ""
			k := c.Choose(1 + 4*(size+3))
			if k == 0 {
				err := r.Close()
				c.Logf("Close=%v", err)
				if w.open != 0 {
					c.Fail("seq-leak", "Close left %d streams open", w.open)
				}
				continue
			}
			off := int64((k-1)/4) - 1
			ln := []int{0, 1, 2, maxSize + 2}[(k-1)%4]
			var streamAt int64 = -1
			if w.live != nil {
				streamAt = w.live.pos
			}
			opens := w.opens
			p := make([]byte, ln)
			n, err := r.ReadAt(p, off)
			c.Logf("ReadAt(%d,%d)=%d,%v opens+%d", ln, off, n, err, w.opens-opens)
			what := fmt.Sprintf("ReadAt(%d,%d)", ln, off)
			if n < 0 || n > ln {
				c.Fail("seq-count", "%s returned %d", what, n)
			}
			if off < 0 {
				if n != 0 || err == nil {
					c.Fail("seq-negative", "%s = %d,%v", what, n, err)
				}
				continue
			}
			if off >= int64(size) {
				if n != 0 || err != io.EOF {
					c.Fail("seq-past-end", "%s = %d,%v want 0,EOF", what, n, err)
				}
				if w.opens != opens {
					c.Fail("seq-open-past-end", "%s opened a stream", what)
				}
				continue
			}
			want := size - int(off)
			if want > ln {
				want = ln
			}
			if n > want {
				c.Fail("seq-too-much", "%s returned %d bytes of at most %d", what, n, want)
			}
			if int(off)+n > len(w.data) || !bytes.Equal(p[:n], w.data[off:int(off)+n]) {
				c.Fail("seq-wrong-bytes", "%s returned %q, source has %q", what, p[:n], w.data)
			}
			if (w.hit != "") != errors.Is(err, errFault) {
				// A failing close of a stream that already ended is not the caller's problem.
				if !(w.hit == "close" && (err == io.EOF || err == nil)) {
					c.Fail("seq-fault-reporting", "%s: injected %q, err=%v", what, w.hit, err)
				}
			}
			if n < ln && err == nil {
				c.Fail("seq-short-nil", "%s = %d,nil", what, n)
			}
			if err == io.EOF && int(off)+n < size && int(off)+n < real {
				c.Fail("seq-early-eof", "%s = %d,EOF but the source has %d bytes", what, n, real)
			}
			if w.hit == "" && w.opens-opens > 1 {
				c.Fail("seq-many-opens", "%s opened %d streams", what, w.opens-opens)
			}
			if streamAt == off && w.opens != opens {
				c.Fail("seq-reopen", "%s: the open stream was already at %d, yet a new one was opened", what, off)
			}
			if w.opens > opens && w.lastOff != off {
				c.Fail("seq-open-offset", "%s opened at %d", what, w.lastOff)
			}
		}
		c.Distinct(c.History())
		w.faults = 0
		_ = r.Close()
		if w.open != 0 {
			c.Fail("seq-leak", "Close left %d streams open", w.open)
		}
	}
}

func init() {
	core.Register(&core.Property{
		ID:          "S02",
		Rule:        "every size, source length deviation, stream read style, operation sequence and placement of one open/read/close fault within the bounds, against a byte-slice model that also counts opens and closes",
		Assumptions: []string{"streams obey the io.Reader contract"},
		Scenarios: func(th bool) []core.Scenario {
			d := 3
			if th {
				d = 4
			}
			return []core.Scenario{
				{Name: "nofault", Bound: fmt.Sprintf("size 0..3, %d ops", d+1), Body: seqOps(3, 4, 0)},
				{Name: "fault", Bound: fmt.Sprintf("size 0..3, %d ops, 1 fault", d), Body: seqOps(3, d, 1)},
			}
		},
	})
}

// ---- S04: cancellable reader, sequential multi reader ----

type scriptReader struct {
	c     *core.C
	reads int
	next  byte
}

func (s *scriptReader) Read(p []byte) (int, error) {
	s.reads++
	k := s.c.Choose(6)
	fill := func(n int) int {
		if n > len(p) {
			n = len(p)
		}
		for i := 0; i < n; i++ {
			p[i] = s.next
			s.next++
		}
		return n
	}
	switch k {
	case 0:
		return fill(len(p)), nil
	case 1:
		return fill(1), nil
	case 2:
		return 0, nil
	case 3:
		return fill(1), io.EOF
	case 4:
		return 0, errFault
	default:
		return fill(1), errFault
	}
}

func cancelOps(depth int) func(c *core.C) {
	return func(c *core.C) {
		ctx, cancel := context.WithCancelCause(context.Background())
		defer cancel(nil)
		src := &scriptReader{c: c}
		r := stream.NewCancellable(ctx, src)
		var sticky error
		canceled := false
		pos := byte(0)
		for i := 0; i < depth; i++ {
			c.Step()
			if !canceled && c.Bool() {
				cancel(nil)
				canceled = true
				c.Logf("cancel")
			}
			p := make([]byte, 2)
			reads := src.reads
			n, err := r.Read(p)
			c.Logf("Read=%d,%v", n, err)
			if sticky != nil {
				if n != 0 || err != sticky || src.reads != reads {
					c.Fail("cancel-not-sticky", "after %v: Read=%d,%v (underlying reads %d)", sticky, n, err, src.reads-reads)
				}
				continue
			}
			if canceled {
				if !errors.Is(err, context.Canceled) || n != 0 || src.reads != reads {
					c.Fail("cancel-ignored", "cancelled, yet Read=%d,%v (underlying reads %d)", n, err, src.reads-reads)
				}
			} else if src.reads != reads+1 {
				c.Fail("cancel-read-count", "%d underlying reads for one Read", src.reads-reads)
			}
			for j := 0; j < n; j++ {
				if p[j] != pos {
					c.Fail("cancel-bytes", "byte %d is %d", pos, p[j])
				}
				pos++
			}
			if pos != src.next {
				c.Fail("cancel-lost", "underlying delivered %d bytes, caller got %d", src.next, pos)
			}
			sticky = err
		}
		c.Distinct(c.History())
	}
}

type scriptRC struct {
	scriptReader
	data   []byte
	closed int
	cerr   error
}

func (s *scriptRC) Read(p []byte) (int, error) {
	if s.closed > 0 {
		s.c.Fail("multi-read-after-close", "Read after Close")
	}
	if len(s.data) == 0 {
		if s.c.Choose(3) == 1 {
			return 0, errFault
		}
		return 0, io.EOF
	}
	n := copy(p, s.data[:1])
	s.data = s.data[1:]
	if len(s.data) == 0 && s.c.Bool() {
		return n, io.EOF
	}
	return n, nil
}
func (s *scriptRC) Close() error { s.closed++; return s.cerr }

func multiRC(maxN int) func(c *core.C) {
	return func(c *core.C) {
		n := c.Choose(maxN + 1)
		var rs []*scriptRC
		var want []byte
		for i := 0; i < n; i++ {
			s := &scriptRC{scriptReader: scriptReader{c: c}}
			for j := c.Choose(3); j > 0; j-- {
				s.data = append(s.data, byte('a'+len(want)))
				want = append(want, byte('a'+len(want)))
			}
			if c.Bool() {
				s.cerr = fmt.Errorf("close %d failed", i)
			}
			rs = append(rs, s)
		}
		r := stream.NewMultiReadCloser(rs...)
		var got []byte
		var err error
		stop := c.Choose(4) // how many reads before giving up; 3: drain
		for i := 0; stop == 3 || i < stop; i++ {
			if i > 40 {
				c.Fail("multi-no-end", "no EOF")
			}
			p := make([]byte, 2)
			var k int
			k, err = r.Read(p)
			c.Step()
			got = append(got, p[:k]...)
			if err != nil {
				break
			}
		}
		if !bytes.HasPrefix(want, got) {
			c.Fail("multi-bytes", "got %q want prefix of %q", got, want)
		}
		if err == io.EOF && len(got) != len(want) {
			c.Fail("multi-truncated", "EOF after %q of %q", got, want)
		}
		cerr := r.Close()
		c.Logf("read %q err=%v close=%v", got, err, cerr)
		for i, s := range rs {
			if s.closed != 1 {
				c.Fail("multi-close", "reader %d closed %d times", i, s.closed)
			}
			if s.cerr != nil && !errors.Is(cerr, s.cerr) {
				c.Fail("multi-close-error", "Close()=%v does not carry %v", cerr, s.cerr)
			}
		}
		if cerr != nil {
			any := false
			for _, s := range rs {
				any = any || s.cerr != nil
			}
			if !any {
				c.Fail("multi-close-error", "Close()=%v although every Close succeeded", cerr)
			}
		}
		c.Distinct(c.History())
	}
}

func init() {
	core.Register(&core.Property{
		ID:          "S04",
		Rule:        "every behaviour of the underlying reader at each call and every cancellation point, within the call bound",
		Assumptions: nil,
		Scenarios: func(th bool) []core.Scenario {
			d, n := 4, 3
			if th {
				d, n = 6, 4
			}
			return []core.Scenario{
				{Name: "cancellable", Bound: fmt.Sprintf("%d reads", d), Body: cancelOps(d)},
				{Name: "multireadcloser", Bound: fmt.Sprintf("0..%d readers of 0..2 bytes", n), Body: multiRC(n)},
			}
		},
	})
}
