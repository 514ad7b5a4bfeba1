package tarp

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"strconv"
	"strings"

	"github.com/ngicks/go-fsys-helper/tarfs"
	"verif.local/mc/core"
)

func pad(b []byte) []byte {
	for len(b)%512 != 0 {
		b = append(b, 0)
	}
	return b
}

func rawHeader(name string, typ byte, size int, gnu bool, fill func(h []byte)) []byte {
	h := make([]byte, 512)
	copy(h, name)
	copy(h[100:], "0000644\x00")
	copy(h[108:], "0000000\x00")
	copy(h[116:], "0000000\x00")
	copy(h[124:], fmt.Sprintf("%011o\x00", size))
	copy(h[136:], "00000000000\x00")
	h[156] = typ
	if gnu {
		copy(h[257:], "ustar  \x00")
	} else {
		copy(h[257:], "ustar\x0000")
	}
	if fill != nil {
		fill(h)
	}
	copy(h[148:], "        ")
	sum := 0
	for _, b := range h {
		sum += int(b)
	}
	copy(h[148:], fmt.Sprintf("%06o\x00 ", sum))
	return h
}

func paxRecord(k, v string) string {
	s := " " + k + "=" + v + "\n"
	n := len(s) + 1
	for len(strconv.Itoa(n))+len(s) != n {
		n = len(strconv.Itoa(n)) + len(s)
	}
	return strconv.Itoa(n) + s
}

func paxHeader(recs string) []byte {
	return append(rawHeader("PaxHeaders/x", 'x', len(recs), false, nil), pad([]byte(recs))...)
}

type frag struct{ off, ln int }

// sparseEntry builds one sparse member in the given format.
func sparseEntry(format int, name string, frags []frag, size int, tail []byte) []byte {
	n := 0
	for _, f := range frags {
		n += f.ln
	}
	data := tail[:n]
	oct := func(v int) string { return fmt.Sprintf("%011o\x00", v) }
	switch format {
	case 0: // old GNU
		var ext []byte
		h := rawHeader(name, 'S', n, true, func(h []byte) {
			for i, f := range frags {
				if i == 4 {
					break
				}
				copy(h[386+24*i:], oct(f.off))
				copy(h[386+24*i+12:], oct(f.ln))
			}
			copy(h[483:], oct(size))
			if len(frags) > 4 {
				h[482] = 1
			}
		})
		for rest := frags[min(4, len(frags)):]; len(rest) > 0; {
			b := make([]byte, 512)
			k := min(21, len(rest))
			for i, f := range rest[:k] {
				copy(b[24*i:], oct(f.off))
				copy(b[24*i+12:], oct(f.ln))
			}
			rest = rest[k:]
			if len(rest) > 0 {
				b[504] = 1
			}
			ext = append(ext, b...)
		}
		return append(append(h, ext...), pad(append([]byte(nil), data...))...)
	case 1: // PAX 0.0
		r := paxRecord("GNU.sparse.size", strconv.Itoa(size)) + paxRecord("GNU.sparse.numblocks", strconv.Itoa(len(frags)))
		for _, f := range frags {
			r += paxRecord("GNU.sparse.offset", strconv.Itoa(f.off)) + paxRecord("GNU.sparse.numbytes", strconv.Itoa(f.ln))
		}
		return append(append(paxHeader(r), rawHeader(name, '0', n, false, nil)...), pad(append([]byte(nil), data...))...)
	case 2: // PAX 0.1
		var m []string
		for _, f := range frags {
			m = append(m, strconv.Itoa(f.off), strconv.Itoa(f.ln))
		}
		r := paxRecord("GNU.sparse.name", name) + paxRecord("GNU.sparse.size", strconv.Itoa(size)) +
			paxRecord("GNU.sparse.numblocks", strconv.Itoa(len(frags))) + paxRecord("GNU.sparse.map", strings.Join(m, ","))
		return append(append(paxHeader(r), rawHeader("GNUSparseFile.0/x", '0', n, false, nil)...), pad(append([]byte(nil), data...))...)
	default: // PAX 1.0
		m := strconv.Itoa(len(frags)) + "\n"
		for _, f := range frags {
			m += strconv.Itoa(f.off) + "\n" + strconv.Itoa(f.ln) + "\n"
		}
		mp := pad([]byte(m))
		r := paxRecord("GNU.sparse.major", "1") + paxRecord("GNU.sparse.minor", "0") +
			paxRecord("GNU.sparse.name", name) + paxRecord("GNU.sparse.realsize", strconv.Itoa(size))
		return append(append(append(paxHeader(r), rawHeader("GNUSparseFile.0/x", '0', len(mp)+n, false, nil)...), mp...), pad(append([]byte(nil), data...))...)
	}
}

var payload = func() []byte {
	b := make([]byte, 4096)
	for i := range b {
		b[i] = byte('A' + i%53)
	}
	return b
}()

// longName writes a GNU long-name block: below, exactly and above one block.
func longName(c *core.C, name string, buf *bytes.Buffer) string {
	long := name + strings.Repeat("x", core.Pick(c, 110, 511, 512)-len(name))
	buf.Write(append(rawHeader("././@LongLink", 'L', len(long)+1, true, nil), pad([]byte(long+"\x00"))...))
	return long
}

// member appends one archive member of a chosen shape and returns its name.
func member(c *core.C, i int, buf *bytes.Buffer, rich bool) (outName, what string) {
	name := fmt.Sprintf("m%d", i)
	switch k := c.Choose(5); k {
	case 0, 1, 2: // plain, GNU long name, PAX
		size := core.Pick(c, 0, 1, 511, 512, 513)
		body := payload[i : i+size]
		switch k {
		case 1:
			long := longName(c, name, buf)
			buf.Write(rawHeader(name, '0', size, true, nil))
			name = long
		case 2:
			buf.Write(paxHeader(paxRecord("path", name+"é") + paxRecord("comment", strings.Repeat("c", 500))))
			buf.Write(rawHeader(name, '0', size, false, nil))
			name += "é"
		default:
			buf.Write(rawHeader(name, core.Pick(c, byte('0'), byte('\x00')), size, false, nil))
		}
		buf.Write(pad(append([]byte(nil), body...)))
		return name, fmt.Sprintf("plain%d size %d", k, size)
	case 3: // no body although Size may be set
		typ := core.Pick(c, byte('2'), byte('1'), byte('5'), byte('g'))
		switch typ {
		case 'g':
			r := paxRecord("comment", "global")
			buf.Write(append(rawHeader("pax_global_header", 'g', len(r), false, nil), pad([]byte(r))...))
		case '5':
			buf.Write(rawHeader(name+"/", typ, 0, false, nil))
		default:
			buf.Write(rawHeader(name, typ, 0, false, func(h []byte) { copy(h[157:], "elsewhere") }))
		}
		return "", fmt.Sprintf("type %q", typ)
	}
	format := c.Choose(4)
	if format == 0 && rich && c.Bool() {
		long := longName(c, name, buf)
		defer func() { outName, what = long, "long name "+what }()
	}
	// Fragments over a grid of units: every subset, so holes lie anywhere.
	unit := core.Pick(c, 3, 512)
	units := 4
	if rich {
		units = 5
	}
	mask := c.Choose(1 << units)
	var frags []frag
	for u := 0; u < units; u++ {
		if mask>>u&1 == 1 {
			frags = append(frags, frag{u * unit, unit})
		}
	}
	size := units * unit
	switch c.Choose(4) {
	case 1: // the file ends right after its last data
		if len(frags) > 0 {
			size = frags[len(frags)-1].off + unit
		}
	case 2: // GNU tar marks the end with an empty fragment
		frags = append(frags, frag{size, 0})
	case 3: // many fragments: extension blocks
		if mask != 0 {
			c.Prune()
		}
		frags = nil
		n := core.Pick(c, 4, 5, 25, 26, 30, 46, 47, 70)
		for u := 0; u < n; u++ {
			frags = append(frags, frag{u * 2 * unit, 1})
		}
		size = 2 * n * unit
	}
	buf.Write(sparseEntry(format, name, frags, size, payload[i:]))
	return name, fmt.Sprintf("sparse format %d frags %v size %d", format, frags, size)
}

func contents(maxEnts int, rich bool) func(c *core.C) {
	return func(c *core.C) {
		n := 1 + c.Choose(maxEnts)
		var buf bytes.Buffer
		for i := 0; i < n; i++ {
			_, what := member(c, i, &buf, rich)
			c.Logf("%s", what)
		}
		buf.Write(make([]byte, 1024))
		compareArchive(c, buf.Bytes())
	}
}

// compareArchive compares an archive's sections and files with what the
// standard library's own reader makes of them.
func compareArchive(c *core.C, raw []byte) {
	{
		type refEnt struct {
			h    *tar.Header
			body []byte
		}
		var ref []refEnt
		tr := tar.NewReader(bytes.NewReader(raw))
		var refErr error
		for {
			h, err := tr.Next()
			if err == io.EOF {
				break
			}
			if err != nil {
				if _, err := tarfs.New(bytes.NewReader(raw), &tarfs.FsOption{HandleSymlink: true}); err == nil {
					c.Fail("tar-corrupt-accepted", "New accepts an archive in which archive/tar finds %v", refErr)
				}
				refErr = err
				break
			}
			b, err := io.ReadAll(tr)
			if err != nil {
				refErr = err
				break
			}
			ref = append(ref, refEnt{h, b})
		}
		if refErr != nil {
			c.Outcome("rejected by archive/tar")
			c.Prune()
		}
		c.Outcome("accepted")
		i, lastEnd := 0, int64(0)
		for s, err := range tarfs.Sections(bytes.NewReader(raw)) {
			c.Step()
			if err != nil || i >= len(ref) {
				c.Fail("tar-sections", "section %d: %v (archive/tar has %d)", i, err, len(ref))
			}
			if s.Header().Name != ref[i].h.Name || s.Header().Size != ref[i].h.Size || s.Header().Typeflag != ref[i].h.Typeflag {
				c.Fail("tar-section-header", "section %d is %s/%d, archive/tar says %s/%d", i, s.Header().Name, s.Header().Size, ref[i].h.Name, ref[i].h.Size)
			}
			if s.BodyStart() > s.BodyEnd() || s.HeaderEnd() > s.BodyStart() || s.HeaderStart() >= s.HeaderEnd() || s.BodyEnd() > int64(len(raw)) {
				c.Fail("tar-section-bounds", "section %d: header %d-%d body %d-%d of %d", i, s.HeaderStart(), s.HeaderEnd(), s.BodyStart(), s.BodyEnd(), len(raw))
			}
			if !isSparse(s.Header()) && !bytes.Equal(raw[s.BodyStart():s.BodyEnd()], ref[i].body) {
				c.Fail("tar-section-body", "section %d spans %d bytes of body, the member has %d", i, s.BodyEnd()-s.BodyStart(), len(ref[i].body))
			}
			if want := (lastEnd + 511) / 512 * 512; s.HeaderStart() != want {
				c.Fail("tar-section-start", "section %d starts at %d, the one before ends at %d", i, s.HeaderStart(), lastEnd)
			}
			lastEnd = s.BodyEnd()
			i++
		}
		if i != len(ref) {
			c.Fail("tar-sections", "%d sections, archive/tar has %d", i, len(ref))
		}
		fsys, err := tarfs.New(bytes.NewReader(raw), &tarfs.FsOption{HandleSymlink: true})
		if err != nil {
			c.Fail("tar-new", "New: %v", err)
		}
		for _, e := range ref {
			if e.h.Typeflag != tar.TypeReg && e.h.Typeflag != tar.TypeGNUSparse && e.h.Typeflag != '\x00' {
				continue
			}
			f, err := fsys.Open(e.h.Name)
			if err != nil {
				c.Fail("tar-open-fails", "Open(%q): %v", e.h.Name, err)
			}
			got, err := io.ReadAll(f)
			if err != nil || !bytes.Equal(got, e.body) {
				c.Fail("tar-content", "content of %q: %s", e.h.Name, diff(got, e.body, err))
			}
			st, err := f.Stat()
			if err != nil || st.Size() != int64(len(e.body)) || !st.Mode().IsRegular() {
				if !(e.h.Typeflag == tar.TypeGNUSparse && err == nil && st.Size() == int64(len(e.body))) {
					c.Fail("tar-size", "Stat(%q): size %v mode %v, content has %d bytes (%v)", e.h.Name, st.Size(), st.Mode(), len(e.body), err)
				}
			}
			checkRandomAccess(c, e.h.Name, f, e.body)
			f.Close()
		}
	}
}

func isSparse(h *tar.Header) bool {
	if h.Typeflag == tar.TypeGNUSparse {
		return true
	}
	for k := range h.PAXRecords {
		if strings.HasPrefix(k, "GNU.sparse.") {
			return true
		}
	}
	return false
}

// num encodes a number for a header field in one of the ways tars are found to.
func num(style, v, width int) string {
	switch style {
	case 1: // base-256
		b := make([]byte, width)
		for i, x := width-1, v; i > 0; i, x = i-1, x>>8 {
			b[i] = byte(x)
		}
		b[0] = 0x80
		return string(b)
	case 2: // no terminator
		return fmt.Sprintf("%0*o", width, v)
	case 3: // padded with spaces
		return fmt.Sprintf("%*o ", width-1, v)
	case 4: // ended early
		s := fmt.Sprintf("%o\x00", v)
		return s + strings.Repeat("7", width-len(s))
	case 5: // base-256, negative
		return strings.Repeat("\xff", width-1) + string([]byte{byte(-v)})
	case 6: // no number
		return strings.Repeat("9", width)
	case 7: // base-256, too large
		return "\x80\xff" + strings.Repeat("\xff", width-2)
	}
	return fmt.Sprintf("%0*o\x00", width-1, v)
}

const numStyles = 8

// resum sets the checksum of a header again.
func resum(h []byte) []byte {
	copy(h[148:], "        ")
	sum := 0
	for _, b := range h[:512] {
		sum += int(b)
	}
	copy(h[148:], fmt.Sprintf("%06o\x00 ", sum))
	return h
}

// odd is an archive of members of unusual kinds and spellings: one that is not
// a plain file or is spelled unusually, then one of every ordinary shape or a
// sparse one spelled unusually.
func odd(c *core.C) {
	var buf bytes.Buffer
	body := func(n int) []byte { return pad(append([]byte(nil), payload[7:7+n]...)) }
	second := c.Choose(6)
	first := func() {
		size := core.Pick(c, 0, 513)
		kind := second
		if kind < 4 { // the map is what is unusual
			kind = core.Pick(c, 0, 8)
		} else {
			kind = c.Choose(9)
		}
		switch kind {
		case 0: // kinds whose body, if any, stands in the archive
			typ := core.Pick(c, byte('7'), byte('Z'), byte('V'), byte('I'))
			c.Logf("type %q size %d", typ, size)
			buf.Write(rawHeader("odd", typ, size, false, nil))
			buf.Write(body(size))
		case 1: // kinds that have no body whatever their size says
			typ := core.Pick(c, byte('1'), byte('2'), byte('3'), byte('4'), byte('5'), byte('6'))
			c.Logf("type %q size %d, no body", typ, size)
			buf.Write(rawHeader("odd", typ, size, false, func(h []byte) { copy(h[157:], "elsewhere") }))
		case 2: // a directory of old: no type, a trailing slash
			c.Logf("old directory size %d", size)
			buf.Write(rawHeader("odd/", 0, size, false, nil))
		case 3: // the size, spelled unusually
			st := c.Choose(numStyles)
			c.Logf("size %d in style %d", size, st)
			buf.Write(resum(rawHeader("odd", '0', 0, core.Pick(c, true, false), func(h []byte) { copy(h[124:136], num(st, size, 12)) })))
			buf.Write(body(size))
		case 4: // the size of a PAX header, spelled unusually, and a size in it
			st := c.Choose(numStyles)
			rec := paxRecord("size", strconv.Itoa(size)) + paxRecord("comment", strings.Repeat("c", size))
			h := paxHeader(rec)
			copy(h[124:136], num(st, len(rec), 12))
			resum(h)
			c.Logf("PAX header in style %d with size %d", st, size)
			buf.Write(h)
			buf.Write(rawHeader("odd", '0', 3, false, nil))
			buf.Write(body(size))
		case 5: // a long name and a long link, spelled unusually, and a PAX header
			st := c.Choose(numStyles)
			c.Logf("long name and link in style %d", st)
			for _, typ := range []byte("LK") {
				long := strings.Repeat("l", 511+size)
				h := append(rawHeader("././@LongLink", typ, 0, true, func(h []byte) { copy(h[124:136], num(st, len(long)+1, 12)) }), pad([]byte(long+"\x00"))...)
				buf.Write(h)
			}
			if c.Bool() {
				buf.Write(paxHeader(paxRecord("comment", strings.Repeat("c", 500))))
			}
			buf.Write(rawHeader("odd", core.Pick(c, byte('0'), byte('1')), 0, true, nil))
		case 6: // two PAX headers, or a global and a local one
			c.Logf("two PAX headers")
			h := paxHeader(paxRecord("comment", strings.Repeat("c", size)))
			if c.Bool() {
				h[156] = 'g'
				resum(h)
			}
			buf.Write(h)
			buf.Write(paxHeader(paxRecord("path", "odd") + paxRecord("comment", strings.Repeat("d", 512))))
			buf.Write(rawHeader("x", '0', 3, false, nil))
			buf.Write(body(3))
		case 7: // a sparse member with nothing in it
			c.Logf("empty sparse")
			buf.Write(sparseEntry(c.Choose(4), "odd", nil, size, payload))
		case 8: // no member of this kind
			c.Logf("nothing")
		}
	}
	next := func() {
		frags := core.Pick(c, []frag(nil), []frag{{0, 3}, {1024, 5}}, []frag{{512, 512}, {2048, 0}})
		size := core.Pick(c, 2048, 1029, 1024)
		switch k := second; k {
		case 0: // an old sparse member, its numbers spelled unusually
			st, where := c.Choose(numStyles), c.Choose(3)
			h := sparseEntry(0, "second", frags, size, payload)
			c.Logf("old sparse %v size %d, numbers %d in style %d", frags, size, where, st)
			switch {
			case where == 2:
				copy(h[483:], num(st, size, 12))
			case len(frags) > 0:
				f := frags[len(frags)-1]
				copy(h[386+24*(len(frags)-1)+12*where:], num(st, []int{f.off, f.ln}[where], 12))
			}
			buf.Write(resum(h))
		case 1, 2: // PAX sparse members whose records are unusual
			n := 0
			var m []string
			for _, f := range frags {
				m, n = append(m, strconv.Itoa(f.off), strconv.Itoa(f.ln)), n+f.ln
			}
			blocks := strconv.Itoa(len(frags))
			if k == 2 {
				switch c.Choose(4) {
				case 0:
					blocks = core.Pick(c, "", "-1", "x", "1000000000000000000", "9223372036854775807", " 2")
				case 1:
					m = append(m, core.Pick(c, "7", "x", "-1"))
				case 2:
					if len(m) > 0 {
						m[c.Choose(len(m))] = core.Pick(c, "", "x", "-1", "9223372036854775807", "+1")
					}
				case 3:
					if len(m) > 2 { // out of order, overlapping
						m[0], m[2] = m[2], m[0]
					}
				}
			}
			r := paxRecord("GNU.sparse.name", "second") + paxRecord("GNU.sparse.size", strconv.Itoa(size)) +
				paxRecord("GNU.sparse.numblocks", blocks)
			if mp := strings.Join(m, ","); mp != "" || c.Bool() {
				r += paxRecord("GNU.sparse.map", mp)
			}
			v := core.Pick(c, "", "0.0", "0.1", "0.2", "2.0")
			if v != "" {
				r += paxRecord("GNU.sparse.major", v[:1]) + paxRecord("GNU.sparse.minor", v[2:])
			}
			c.Logf("PAX sparse of version %q, %q blocks, map %q, size %d", v, blocks, m, size)
			buf.Write(append(append(paxHeader(r), rawHeader("x", '0', n, false, nil)...), pad(append([]byte(nil), payload[:n]...))...))
		case 3: // a PAX 1.0 sparse member whose map is unusual
			n := 0
			lines := []string{strconv.Itoa(len(frags))}
			for _, f := range frags {
				lines, n = append(lines, strconv.Itoa(f.off), strconv.Itoa(f.ln)), n+f.ln
			}
			if i := c.Choose(len(lines) + 1); i < len(lines) {
				lines[i] = core.Pick(c, "", "x", "-1", "9223372036854775807", "+1", "1000000000000000000", strings.Repeat("0", 600)+"1")
			}
			mp := pad([]byte(strings.Join(lines, "\n") + "\n"))
			if c.Bool() { // cut in the map
				mp = pad([]byte(strings.Join(lines, "\n")))
				n = 0
			}
			r := paxRecord("GNU.sparse.major", "1") + paxRecord("GNU.sparse.minor", "0") +
				paxRecord("GNU.sparse.name", "second") + paxRecord("GNU.sparse.realsize", strconv.Itoa(size))
			c.Logf("PAX 1.0 sparse, map %.60q, size %d", lines, size)
			buf.Write(append(append(append(paxHeader(r), rawHeader("x", '0', len(mp)+n, false, nil)...), mp...), pad(append([]byte(nil), payload[:n]...))...))
		case 4:
			format := c.Choose(4)
			e := sparseEntry(format, "second", frags, size, payload)
			c.Logf("sparse format %d frags %v size %d", format, frags, size)
			switch st := c.Choose(numStyles); c.Choose(3) {
			case 0: // its own header, or the PAX header before it
				c.Logf("size in style %d", st)
				n, _ := strconv.ParseInt(string(e[124:135]), 8, 64)
				copy(e[124:136], num(st, int(n), 12))
				resum(e)
			case 1:
				c.Logf("after a PAX header of a size in style %d", st)
				h := paxHeader(paxRecord("comment", strings.Repeat("c", 600)))
				copy(h[124:136], num(st, len(paxRecord("comment", strings.Repeat("c", 600))), 12))
				buf.Write(resum(h))
			case 2:
				c.Logf("after a long link of a size in style %d", st)
				h := rawHeader("././@LongLink", 'K', 0, true, func(h []byte) { copy(h[124:136], num(st, 520, 12)) })
				buf.Write(append(h, pad([]byte(strings.Repeat("k", 519)+"\x00"))...))
			}
			buf.Write(e)
		case 5:
			c.Logf("plain")
			buf.Write(rawHeader("second", '0', 513, false, nil))
			buf.Write(body(513))
		}
	}
	first()
	next()
	buf.Write(rawHeader("third", '0', 513, false, nil))
	buf.Write(body(513))
	buf.Write(make([]byte, 1024))
	compareArchive(c, buf.Bytes())
}

// cut truncates a one- or two-member archive anywhere: what still opens must
// read as it did in the whole archive, or fail.
func cut(n int) func(c *core.C) { return func(c *core.C) { cutArchive(c, n) } }

func cutArchive(c *core.C, free int) {
	var buf bytes.Buffer
	for i := 0; i < 2; i++ {
		what := "plain"
		if i < free {
			_, what = member(c, i, &buf, false)
		} else {
			buf.Write(rawHeader("last", '0', 513, false, nil))
			buf.Write(pad(append([]byte(nil), payload[:513]...)))
		}
		c.Logf("%s", what)
	}
	whole := buf.Bytes()
	want := map[string][]byte{}
	tr := tar.NewReader(bytes.NewReader(append(append([]byte(nil), whole...), make([]byte, 1024)...)))
	for {
		h, err := tr.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			c.Prune()
		}
		b, err := io.ReadAll(tr)
		if err != nil {
			c.Prune()
		}
		want[h.Name] = b
	}
	// Sectors, and the bytes around each sector edge.
	n := len(whole)
	at := c.Choose(n/512+1)*512 + core.Pick(c, 0, -1, 1, 3)
	if at < 0 || at > n {
		c.Prune()
	}
	raw := whole[:at]
	c.Logf("cut to %d of %d", at, n)
	c.Step()
	fsys, err := tarfs.New(bytes.NewReader(raw), &tarfs.FsOption{HandleSymlink: true})
	if err != nil {
		c.Outcome("rejected")
		return
	}
	c.Outcome("opened")
	for name, body := range want {
		f, err := fsys.Open(name)
		if err != nil {
			continue
		}
		st, err := f.Stat()
		if err != nil || !st.Mode().IsRegular() {
			f.Close()
			continue
		}
		got, err := io.ReadAll(f)
		if err == nil && !bytes.Equal(got, body) {
			c.Fail("tar-truncated-content", "%q in the truncated archive: %s", name, diff(got, body, err))
		}
		if err != nil && !bytes.HasPrefix(body, got) {
			c.Fail("tar-truncated-content", "%q in the truncated archive: %s", name, diff(got, body, err))
		}
		f.Close()
	}
}

func diff(a, b []byte, err error) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("got %d bytes, want %d, first difference at %d (err %v)", len(a), len(b), i, err)
}

// checkRandomAccess compares ReadAt and Seek+Read at block and fragment edges.
func checkRandomAccess(c *core.C, name string, f fs.File, body []byte) {
	ra := f.(io.ReaderAt)
	sk := f.(io.ReadSeeker)
	var offs []int
	for _, o := range []int{0, 1, 2, 3, 4, 6, 511, 512, 513, 1023, 1024, 1536, len(body) - 1, len(body), len(body) + 1} {
		if o >= 0 {
			offs = append(offs, o)
		}
	}
	for _, o := range offs {
		for _, l := range []int{1, 2, 5, 600} {
			p := make([]byte, l)
			n, err := ra.ReadAt(p, int64(o))
			want := []byte{}
			if o < len(body) {
				want = body[o:min(len(body), o+l)]
			}
			if !bytes.Equal(p[:n], want) || (n < l && err == nil) || (err != nil && err != io.EOF) {
				c.Fail("tar-readat", "ReadAt(%q, len %d, off %d): %s", name, l, o, diff(p[:n], want, err))
			}
			if s, err := sk.Seek(int64(o), io.SeekStart); err != nil || s != int64(o) {
				c.Fail("tar-seek", "Seek(%q,%d)=%d,%v", name, o, s, err)
			}
			n, err = io.ReadFull(sk, p)
			if !bytes.Equal(p[:n], want) {
				c.Fail("tar-seekread", "Seek(%d)+Read(%d) of %q: %s", o, l, name, diff(p[:n], want, err))
			}
		}
	}
}

func init() {
	core.Register(&core.Property{
		ID:          "T02",
		Rule:        "every archive of up to the stated number of members over header formats (ustar, GNU long name, PAX, global, body-less), body sizes around the block size, and four sparse encodings with every fragment subset; content is compared with archive/tar at every listed offset and length",
		Assumptions: []string{"archive/tar is the reference for what a member contains"},
		Scenarios: func(th bool) []core.Scenario {
			ss := []core.Scenario{
				{Name: "one", Bound: "1 member, 5-unit sparse grid", Body: contents(1, true)},
				{Name: "two", Bound: "1..2 members, 4-unit sparse grid", Body: contents(2, false)},
			}
			ss = append(ss, core.Scenario{Name: "odd", Bound: "three members: an unusual one, one of every shape incl. unusually spelled and malformed sparse maps, a plain one", Body: odd})
			ss = append(ss, core.Scenario{Name: "cut", Bound: "a member and a plain one, cut at every sector edge and the bytes around it", Body: cut(1)})
			if th {
				ss = append(ss, core.Scenario{Name: "cut2", Bound: "two members, cut likewise", Body: cut(2)})
				ss = append(ss, core.Scenario{Name: "two-rich", Bound: "1..2 members, 5-unit grid", Body: contents(2, true)},
					core.Scenario{Name: "three", Bound: "1..3 members, 4-unit grid (time-capped)", Body: contents(3, false)})
			}
			return ss
		},
	})
}
