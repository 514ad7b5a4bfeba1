package streams

import (
	"bytes"
	"errors"
	"io"
	"io/fs"
	"testing/fstest"

	"github.com/ngicks/go-fsys-helper/stream"
	"verif.local/mc/core"
)

// statted is a file whose Stat may fail.
type statted struct {
	fs.File
	err error
}

func (s statted) Stat() (fs.FileInfo, error) {
	if s.err != nil {
		return nil, s.err
	}
	return s.File.Stat()
}

func (s statted) ReadAt(p []byte, off int64) (int, error) {
	return s.File.(io.ReaderAt).ReadAt(p, off)
}

// concatBuilt concatenates files and sized readers whose sizes are asked for,
// and refuses seeks that are none.
func concatBuilt(c *core.C) {
	n := c.Choose(4)
	m := fstest.MapFS{}
	bad := c.Choose(n+1) - 1
	files := c.Bool()
	var all []byte
	var fl []statted
	var sl []*io.SectionReader
	for i := 0; i < n; i++ {
		b := bytes.Repeat([]byte{byte('a' + i)}, c.Choose(3))
		all = append(all, b...)
		name := string(rune('a' + i))
		m[name] = &fstest.MapFile{Data: b}
		f, err := m.Open(name)
		if err != nil {
			panic(err)
		}
		s := statted{File: f}
		if i == bad {
			s.err = errFault
		}
		fl = append(fl, s)
		sl = append(sl, io.NewSectionReader(bytes.NewReader(append([]byte("#"), append(b, '#')...)), 1, int64(len(b))))
	}
	var rs []stream.SizedReaderAt
	c.Logf("%d segments %q, files %v, Stat %d fails", n, all, files, bad)
	c.Step()
	if files {
		var err error
		rs, err = stream.SizedReadersFromFileLike(fl)
		if bad >= 0 {
			if !errors.Is(err, errFault) {
				c.Fail("concat-built-error", "a failing Stat: %v", err)
			}
			return
		}
		if err != nil {
			c.Fail("concat-built-error", "%v", err)
		}
	} else {
		rs = stream.SizedReadersFromReadAtSizer(sl)
	}
	r := stream.NewMultiReadAtSeekCloser(rs)
	at := c.Choose(len(all) + 1)
	if _, err := r.Seek(int64(at), io.SeekStart); err != nil {
		c.Fail("concat-built", "Seek(%d): %v", at, err)
	}
	switch c.Choose(4) {
	case 1:
		if _, err := r.Seek(0, core.Pick(c, 3, -1, 9)); err == nil {
			c.Fail("concat-seek", "a seek from nowhere is taken")
		}
	case 2:
		if _, err := r.Seek(int64(-1-at), io.SeekCurrent); err == nil {
			c.Fail("concat-seek", "a seek before the start is taken")
		}
	case 3:
		if _, err := r.Seek(int64(-1-len(all)), io.SeekEnd); err == nil {
			c.Fail("concat-seek", "a seek before the start is taken")
		}
	}
	got, err := io.ReadAll(r)
	if err != nil || !bytes.Equal(got, all[at:]) {
		c.Fail("concat-built", "from %d of %q: %q, %v", at, all, got, err)
	}
	if n, err := r.ReadAt(make([]byte, 1), core.Pick(c, int64(-1), int64(len(all)))); n != 0 || err == nil {
		c.Fail("concat-outside", "ReadAt outside gives %d, %v", n, err)
	}
	if err := r.Close(); err != nil {
		c.Fail("concat-close", "%v", err)
	}
}
