package vr

import (
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path"
	"strings"
	"sync"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/sftpfs"
	"github.com/pkg/sftp"
)

// request is one SFTP request as it went over the wire.
type request struct {
	Type   byte
	Ext    string
	Paths  []string
	Handle string
	Flags  uint32
}

func (r request) String() string {
	n := map[byte]string{3: "open", 4: "close", 5: "read", 6: "write", 7: "lstat", 8: "fstat", 9: "setstat", 10: "fsetstat", 11: "opendir", 12: "readdir", 13: "remove", 14: "mkdir", 15: "rmdir", 16: "realpath", 17: "stat", 18: "rename", 19: "readlink", 20: "symlink", 200: "ext:" + r.Ext}[r.Type]
	if n == "" {
		n = fmt.Sprint("type ", r.Type)
	}
	return n + " " + strings.Join(r.Paths, " ") + r.Handle
}

// fault kinds the wire can inject at one request.
const (
	faultNone    = iota
	faultRefuse  // the server answers failure without acting
	faultLost    // the server acts, the answer says failure
	faultDeny    // the server answers permission denied without acting
	faultCut     // the connection goes before the request arrives
	faultCutLate // the server acts, the connection goes before the answer
)

var faultNames = []string{"none", "refused", "answer lost", "denied", "cut", "cut after"}

// wire is one client talking to pkg/sftp's own server over a wire that is
// watched and can fail.
type wire struct {
	mu     sync.Mutex
	log    []request
	open   int // handles handed out minus handles closed
	pend   map[uint32]byte
	mask   map[uint32]bool // answers to turn into failures
	cutID  map[uint32]bool
	armed  bool
	at     int // requests until the fault
	kind   int
	span   int // consecutive requests that fail
	fired  []request
	client *sftp.Client
	ends   []io.Closer
	done   sync.WaitGroup
}

type pipeEnd struct {
	io.Reader
	io.WriteCloser
}

// link is a buffered one-way pipe: writers never wait for readers.
type link struct {
	mu   sync.Mutex
	cond *sync.Cond
	buf  []byte
	end  bool
}

func newLink() *link { l := &link{}; l.cond = sync.NewCond(&l.mu); return l }

func (l *link) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.end {
		return 0, io.ErrClosedPipe
	}
	l.buf = append(l.buf, b...)
	l.cond.Signal()
	return len(b), nil
}

func (l *link) Read(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for len(l.buf) == 0 && !l.end {
		l.cond.Wait()
	}
	if len(l.buf) == 0 {
		return 0, io.EOF
	}
	n := copy(b, l.buf)
	l.buf = l.buf[n:]
	return n, nil
}

func (l *link) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.end = true
	l.cond.Broadcast()
	return nil
}

func newWire() *wire {
	w := &wire{pend: map[uint32]byte{}, mask: map[uint32]bool{}, cutID: map[uint32]bool{}}
	c2t, t2s, s2t, t2c := newLink(), newLink(), newLink(), newLink()
	w.ends = []io.Closer{c2t, t2s, s2t, t2c}
	srv, err := sftp.NewServer(pipeEnd{t2s, s2t})
	if err != nil {
		panic(err)
	}
	w.done.Add(3)
	go func() { defer w.done.Done(); _ = srv.Serve(); _ = s2t.Close() }()
	go func() { defer w.done.Done(); w.requests(c2t, t2s, t2c) }()
	go func() { defer w.done.Done(); w.answers(s2t, t2c) }()
	cl, err := sftp.NewClientPipe(t2c, c2t)
	if err != nil {
		panic(err)
	}
	w.client = cl
	return w
}

func (w *wire) close() {
	_ = w.client.Close()
	w.cut()
	w.done.Wait()
	_ = w.client.Wait()
}

func (w *wire) cut() {
	for _, e := range w.ends {
		_ = e.Close()
	}
}

func readPacket(r io.Reader) ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return nil, err
	}
	b := make([]byte, 4+binary.BigEndian.Uint32(h[:]))
	copy(b, h[:])
	_, err := io.ReadFull(r, b[4:])
	return b, err
}

func str(b []byte) (string, []byte) {
	if len(b) < 4 {
		return "", nil
	}
	n := binary.BigEndian.Uint32(b)
	return string(b[4 : 4+n]), b[4+n:]
}

func parse(b []byte) (id uint32, r request) {
	r.Type = b[4]
	id = binary.BigEndian.Uint32(b[5:])
	rest := b[9:]
	var s string
	switch r.Type {
	case 4, 5, 6, 8, 10, 12:
		r.Handle, _ = str(rest)
	case 3:
		s, rest = str(rest)
		r.Paths, r.Flags = []string{s}, binary.BigEndian.Uint32(rest)
	case 7, 9, 11, 13, 14, 15, 16, 17, 19:
		s, _ = str(rest)
		r.Paths = []string{s}
	case 18:
		s, rest = str(rest)
		t, _ := str(rest)
		r.Paths = []string{s, t}
	case 20: // link target first, as OpenSSH has it
		s, rest = str(rest)
		t, _ := str(rest)
		r.Paths, r.Ext = []string{t}, s
	case 200:
		r.Ext, rest = str(rest)
		s, rest = str(rest)
		if strings.HasPrefix(r.Ext, "fsync") {
			r.Handle = s
			break
		}
		r.Paths = []string{s}
		if strings.HasPrefix(r.Ext, "posix-rename") || strings.HasPrefix(r.Ext, "hardlink") {
			s, _ = str(rest)
			r.Paths = append(r.Paths, s)
		}
	}
	return id, r
}

func status(id, code uint32, msg string) []byte {
	b := []byte{0, 0, 0, 0, 101}
	b = binary.BigEndian.AppendUint32(b, id)
	b = binary.BigEndian.AppendUint32(b, code)
	b = binary.BigEndian.AppendUint32(b, uint32(len(msg)))
	b = append(b, msg...)
	b = binary.BigEndian.AppendUint32(b, 0)
	binary.BigEndian.PutUint32(b, uint32(len(b)-4))
	return b
}

func (w *wire) requests(c2t io.Reader, t2s, t2c io.WriteCloser) {
	defer t2s.Close()
	for {
		b, err := readPacket(c2t)
		if err != nil {
			return
		}
		if b[4] == 1 {
			if _, err := t2s.Write(b); err != nil {
				return
			}
			continue
		}
		id, r := parse(b)
		w.mu.Lock()
		w.log = append(w.log, r)
		kind := faultNone
		if w.armed {
			if w.at <= 0 {
				kind, w.fired = w.kind, append(w.fired, r)
				w.armed = w.at > 1-w.span
			}
			w.at--
		}
		w.pend[id] = r.Type
		switch kind {
		case faultLost:
			w.mask[id] = true
		case faultCutLate:
			w.cutID[id] = true
		}
		w.mu.Unlock()
		switch kind {
		case faultRefuse:
			_, err = t2c.Write(status(id, 4, "injected failure"))
			continue
		case faultDeny:
			_, err = t2c.Write(status(id, 3, "injected denial"))
			continue
		case faultCut:
			w.cut()
			return
		}
		if _, err := t2s.Write(b); err != nil {
			return
		}
	}
}

func (w *wire) answers(s2t io.Reader, t2c io.WriteCloser) {
	defer t2c.Close()
	for {
		b, err := readPacket(s2t)
		if err != nil {
			return
		}
		if b[4] != 2 {
			id := binary.BigEndian.Uint32(b[5:])
			w.mu.Lock()
			t := w.pend[id]
			delete(w.pend, id)
			switch {
			case b[4] == 102:
				w.open++
			case t == 4:
				w.open--
			}
			if w.mask[id] {
				if b[4] == 102 {
					w.open-- // nobody can close that one
				}
				b = status(id, 4, "injected failure")
			}
			cut := w.cutID[id]
			w.mu.Unlock()
			if cut {
				w.cut()
				return
			}
		}
		if _, err := t2c.Write(b); err != nil {
			return
		}
	}
}

// arm makes span requests fail, from the at-th one from now on.
func (w *wire) arm(at, kind, span int) {
	w.mu.Lock()
	w.armed, w.at, w.kind, w.span, w.fired = kind != faultNone, at, kind, span, nil
	w.mu.Unlock()
}

// take returns the requests seen since the last call.
func (w *wire) take() []request {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.log
	w.log = nil
	return l
}

// sftpSys is a remote tree with the adapter over its directory "base".
type sftpSys struct {
	dir  string
	base string
	w    *wire
	fs   *sftpfs.SftpFs
}

func newSftp(posix bool) *sftpSys {
	s := &sftpSys{dir: scratchDir()}
	s.base = path.Join(s.dir, "base")
	if err := os.Mkdir(s.base, 0o755); err != nil {
		panic(err)
	}
	s.w = newWire()
	s.fs = sftpfs.New(s.w.client, posix, s.base)
	return s
}

func (s *sftpSys) close() { s.w.close(); dropDir(s.dir) }

func (s *sftpSys) sys() Sys {
	return Sys{Fs: vroot.Fs[vroot.File](s.fs), Label: "sftpfs", Cleans: true}
}

func mkSftp(posix bool) func() (Sys, func()) {
	return func() (Sys, func()) { s := newSftp(posix); return s.sys(), s.close }
}

func kitSftp(posix bool) kit {
	n := "sftpfs"
	if posix {
		n += " posix-rename"
	}
	return kit{name: n, mk: mkSftp(posix), skip: kitOsFs.skip, noLoop: true, byName: true}
}
