package vr

import (
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"syscall"

	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/mc/core"
	"verif.local/mc/props/lin"
	"verif.local/mc/vsched"
)

// P03: handles of one sftp-backed tree shared by several goroutines.

type concSftp struct {
	r *sftpSys
	h [3]vroot.File
}

func newConcSftp() lin.World {
	w := &concSftp{r: newSftp(true)}
	seed(w.r.fs, []string{"d/", "d/x=1", "d/y=2", "d/z/", "f=abc", "g=defg"})
	for i, o := range []struct {
		n string
		f int
	}{{"d", os.O_RDONLY}, {"f", os.O_RDWR | os.O_APPEND}, {"g", os.O_RDWR}} {
		f, err := w.r.fs.OpenFile(o.n, o.f, 0)
		if err != nil {
			panic(err)
		}
		w.h[i] = f
	}
	return w
}

func (w *concSftp) End() { w.r.close() }

type scall struct {
	h    int
	op   hop
	data string
	path Op
}

func (s scall) String() string {
	if s.h < 0 {
		return s.path.String()
	}
	o := s.op
	o.h = s.h
	return o.String()
}

var scalls = []scall{
	{h: 0, op: hop{kind: "readdir", n: 1}}, {h: 0, op: hop{kind: "readdir", n: 2}}, {h: 0, op: hop{kind: "readdir", n: -1}}, {h: 0, op: hop{kind: "names", n: 1}}, {h: 0, op: hop{kind: "dirseek"}}, {h: 0, op: hop{kind: "close"}}, {h: 0, op: hop{kind: "stat"}},
	{h: 1, op: hop{kind: "write", n: 1}, data: "A"}, {h: 1, op: hop{kind: "writestring", n: 2}, data: "BC"}, {h: 1, op: hop{kind: "read", n: 2}}, {h: 1, op: hop{kind: "seek", off: 1, n: io.SeekStart}}, {h: 1, op: hop{kind: "writeat", n: 1}, data: "D"}, {h: 1, op: hop{kind: "close"}},
	{h: 1, op: hop{kind: "copy", n: 2}, data: "EF"}, {h: 1, op: hop{kind: "copyout"}},
	{h: 2, op: hop{kind: "write", n: 1}, data: "G"}, {h: 2, op: hop{kind: "read", n: 2}}, {h: 2, op: hop{kind: "seek", off: 1, n: io.SeekCurrent}}, {h: 2, op: hop{kind: "truncate", off: 1}}, {h: 2, op: hop{kind: "readat", n: 2, off: 1}}, {h: 2, op: hop{kind: "sync"}}, {h: 2, op: hop{kind: "close"}},
	{h: 2, op: hop{kind: "copyin", n: 2}, data: "HI"}, {h: 2, op: hop{kind: "copyout"}},
	{h: -1, path: Op{Kind: "create", A: "n", Data: "N"}}, {h: -1, path: Op{Kind: "mkdirall", A: "m/n", Mode: 0o755}}, {h: -1, path: Op{Kind: "mkdirall", A: "m/o", Mode: 0o755}}, {h: -1, path: Op{Kind: "readfile", A: "g"}}, {h: -1, path: Op{Kind: "removeall", A: "d/z"}},
}

func (w *concSftp) Do(i int) string {
	s := scalls[i]
	if s.h < 0 {
		return apply(w.r.sys(), s.path, false)
	}
	if s.op.kind == "copy" {
		n, err := w.h[s.h].(io.ReaderFrom).ReadFrom(strings.NewReader(s.data))
		return fmt.Sprintf("%d %s", n, class(err, false))
	}
	return fileResult(w.h[s.h], s.op, s.data)
}

func (w *concSftp) Final() string {
	var b strings.Builder
	for i, f := range w.h {
		if i == 0 {
			ns, err := f.Readdirnames(-1)
			sort.Strings(ns)
			fmt.Fprintf(&b, "h0: %v %s\n", ns, class(err, false))
			continue
		}
		n, err := f.Seek(0, io.SeekCurrent)
		fmt.Fprintf(&b, "h%d at %d %s\n", i, n, class(err, false))
	}
	m := flat(w.r.sys())
	var ks []string
	for k, v := range m {
		ks = append(ks, k+" "+v)
	}
	sort.Strings(ks)
	return b.String() + strings.Join(ks, "\n")
}

func init() {
	core.Register(&core.Property{
		ID: "P03", Unpriv: true,
		Init: func() error { syscall.Umask(0); return nil },
		Rule: "for every schedule within the bound, what the calls on shared handles return, and where the handles and the remote tree end, is what one of the calls' sequential orders that respects which call returned before which began gives; no schedule deadlocks, panics or has two unordered accesses to the same memory",
		Assumptions: []string{
			"sequentially consistent memory; scheduling points at every lock operation and every statement of sftpfs that reaches memory through a pointer, field, index or slice; what pkg/sftp does between two of them is one step",
			"the sequential orders run on sftpfs itself, which P01 checks",
			"calls in flight on a handle while it is closed may fail or finish",
		},
		Scenarios: func(th bool) (out []core.Scenario) {
			k := lin.Kit{Name: "shared sftp handles", Sut: newConcSftp, Ref: newConcSftp}
			for _, s := range scalls {
				k.Calls = append(k.Calls, s.String())
			}
			add := func(name string, progs []lin.Prog, preempt int, stmts bool) {
				what := "locks"
				if stmts {
					what = "statements and locks"
				}
				out = append(out, core.Scenario{
					Name:  name,
					Bound: fmt.Sprintf("%d programs, every schedule with at most %d preemptions at %s", len(progs), preempt, what),
					Body:  lin.Body(k, progs, vsched.Options{Preempt: preempt, Stmts: stmts, Whole: "github.com/pkg/sftp.", MaxPoints: 20000}),
				})
			}
			d := 0
			if th {
				d = 1
			}
			dir, app, file := []int{0, 1, 2, 3, 4}, []int{7, 8, 9, 10, 13, 14}, []int{15, 16, 17, 18, 22, 23}
			var same []lin.Prog
			for _, r := range [][2]int{{0, 7}, {7, 15}, {15, 24}, {24, len(scalls)}} {
				for a := r[0]; a < r[1]; a++ {
					for b := a; b < r[1]; b++ {
						same = append(same, lin.Prog{{a}, {b}})
					}
				}
			}
			add("pairs, statement by statement", same, 2+d, true)
			add("pairs", lin.Pairs(len(scalls)), 2, false)
			for i, l := range [][]int{dir, app, file} {
				add(fmt.Sprintf("two calls against one: h%d", i), lin.TwoOne(l, l), 1+d, true)
				add(fmt.Sprintf("three calls: h%d", i), lin.Triples(l), 2+d, false)
			}
			return out
		},
	})
}
