package vr

import (
	"fmt"
	"io"
	"path"
	"sort"
	"strings"

	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

// Every path the layers of O01 can hold something at, plus ways to reach them.
var viewPaths = []string{
	".", "a", "a/x", "a/x/y", "a/x/y/z", "b", "b/x", "b/x/y", "a/../b", "a/x/../x", "a/", "b/../a/x", "..", "../a", "/a", "",
}

// contents of a layer at "a": nothing, a file, a link to b, directories.
var viewA = [][]string{
	{}, {"a=fA"}, {"a->b"}, {"a/"}, {"a/", "a/x=fX"}, {"a/", "a/x/"}, {"a/", "a/x/", "a/x/y=fY"}, {"a/", "a/x->../b"},
}

var viewB = [][]string{{}, {"b/", "b/x=bx"}, {"b=fB"}}

// marksOf lists every set of marks over the names given; "." is the root.
func marksOf(c *core.C, names ...string) []string {
	var out []string
	for _, n := range names {
		switch c.Choose(3) {
		case 1:
			out = append(out, "!"+n)
		case 2:
			out = append(out, "^"+n)
		}
	}
	return out
}

// query describes everything the read half answers about one path.
func query(s Sys, p string) string {
	var b strings.Builder
	for _, k := range []string{"lstat", "stat", "readlink", "read", "readdir", "listdir", "readfile"} {
		got := apply(s, Op{Kind: k, A: p}, false)
		if failed(got) && (k == "readlink" || got == "fail") {
			got = "fail"
		}
		if strings.HasPrefix(got, "read ") && failed(got[5:]) {
			got = "fail"
		}
		if strings.HasPrefix(got, "readdir ") && failed(got[8:]) {
			got = "fail"
		}
		fmt.Fprintf(&b, "  %s %s: %s\n", k, p, got)
	}
	return b.String()
}

// pages reads the directory in pieces and once more after a rewind.
func pages(s Sys, p string, n int) string {
	f, err := s.Open(p)
	if err != nil {
		return "open " + class(err, false)
	}
	defer f.Close()
	var rounds []string
	for r := 0; r < 2; r++ {
		var names []string
		for i := 0; i < 10; i++ {
			es, err := f.ReadDir(n)
			for _, e := range es {
				names = append(names, e.Name()+":"+e.Type().String())
			}
			if err == io.EOF {
				break
			}
			if err != nil {
				return "readdir " + class(err, false)
			}
			if len(es) == 0 || len(es) > n {
				return fmt.Sprintf("readdir(%d) gives %d entries", n, len(es))
			}
		}
		sort.Strings(names)
		rounds = append(rounds, strings.Join(names, " "))
		if _, err := f.Seek(0, io.SeekStart); err != nil {
			return "seek " + class(err, false)
		}
	}
	return strings.Join(rounds, " | ")
}

func checkView(c *core.C, st stack, paths []string) {
	ref := union(st)
	before := st.String()
	s := st.sys(nil)
	fail := func(key, format string, a ...any) {
		c.Fail(key, format+"\nstack (top first):\n%s", append(a, before)...)
	}
	want, got := dump(ofRef(ref), false), dump(s, false)
	if want != got {
		fail("tree", "the merged view shows\n%s\nthe layers add up to\n%s", got, want)
	}
	// A mark on or under what is no directory (never written by the overlay) may
	// turn "not a directory" into "not there".
	stray := false
	for _, l := range st {
		if l.store != nil {
			for p := range l.store.opq {
				if n := reffs.Lookup(ref, p, false); p != "" && n != nil && !n.Mode.IsDir() {
					stray = true
				}
			}
			for p := range l.store.white {
				if n := reffs.Lookup(ref, path.Dir(p), false); n != nil && !n.Mode.IsDir() {
					stray = true
				}
			}
		}
	}
	for _, p := range paths {
		w, g := query(ofRef(ref), cleaned(s, Op{A: p}).A), query(s, p)
		w = strings.ReplaceAll(w, " "+cleaned(s, Op{A: p}).A+":", " "+p+":")
		if stray {
			w, g = strings.ReplaceAll(w, "notexist", "fail"), strings.ReplaceAll(g, "notexist", "fail")
		}
		if w != g {
			fail("query", "the merged view answers\n%sthe layers add up to\n%s", g, w)
		}
	}
	for _, p := range []string{".", "a"} {
		if w, g := pages(ofRef(ref), p, 1), pages(s, p, 1); w != g && !strings.HasPrefix(w, "readdir") {
			fail("pages", "reading %s entry by entry gives %s, the layers add up to %s", p, g, w)
		}
	}
	if r := apply(s, Op{Kind: "openroot", A: "a"}, false); r != apply(ofRef(ref), Op{Kind: "openroot", A: "a"}, false) {
		fail("openroot", "the sub-root a shows\n%s\nthe layers add up to\n%s", r, apply(ofRef(ref), Op{Kind: "openroot", A: "a"}, false))
	}
	if bad := times(s, ref); bad != "" {
		fail("times", "%s", bad)
	}
	if st.String() != before {
		fail("written", "reading changed the layers to\n%s", st.String())
	}
	c.Distinct(want)
}

func init() {
	core.Register(&core.Property{
		ID: "O01", Unpriv: true,
		Rule:        "for every stack, the listing, the kinds, contents, links and times, every path looked up directly, and every sub-root are what the layers add up to by the documented rules (shallowest layer wins, whiteouts hide name and subtree in deeper layers, opaque hides deeper entries, a non-directory hides deeper directories)",
		Assumptions: []string{"layers are reference file systems; marks come from an in-memory metadata store"},
		Scenarios: func(th bool) []core.Scenario {
			two := func(marked ...string) func(c *core.C) {
				return func(c *core.C) {
					lines := append(append([]string{}, viewA[c.Choose(len(viewA))]...), viewB[c.Choose(2)]...)
					st := stack{newLayer(0, true, append(lines, marksOf(c, marked...)...))}
					lines = append(append([]string{}, viewA[c.Choose(len(viewA))]...), viewB[c.Choose(len(viewB))]...)
					st = append(st, newLayer(1, false, lines))
					checkView(c, st, viewPaths)
				}
			}
			three := func(top, mid []string) func(c *core.C) {
				return func(c *core.C) {
					st := stack{newLayer(0, true, append(append([]string{}, viewA[c.Choose(len(viewA))]...), marksOf(c, top...)...))}
					st = append(st, newLayer(1, true, append(append([]string{}, viewA[c.Choose(len(viewA))]...), marksOf(c, mid...)...)))
					st = append(st, newLayer(2, false, append(append([]string{}, viewA[c.Choose(len(viewA))]...), "b/", "b/x=bx")))
					checkView(c, st, viewPaths[:9])
				}
			}
			deep := func(layers int, contents ...[]string) func(c *core.C) {
				marks := []string{"", "!a", "^a", "!a/x", "^a/x", "^."}
				return func(c *core.C) {
					var st stack
					for i := range layers {
						lines := append([]string{}, contents[c.Choose(len(contents))]...)
						if i == layers-1 {
							st = append(st, newLayer(i, false, append(lines, "b/", "b/x=bx")))
							break
						}
						if m := core.Pick(c, marks...); m != "" {
							lines = append(lines, m)
						}
						st = append(st, newLayer(i, true, lines))
					}
					checkView(c, st, []string{".", "a", "a/x", "a/x/y", "b/x"})
				}
			}
			out := []core.Scenario{
				{Name: "four layers", Bound: "three canonical layers over a plain one: 4 contents of a each, no mark or one of 5 on the root, a or a/x in each", Body: deep(4, viewA[0], viewA[1], viewA[4], viewA[6])},
				{Name: "five layers", Bound: "four canonical layers over a plain one: a missing or a directory with a subdirectory, no mark or one of 5 in each", Body: deep(5, viewA[0], []string{"a/", "a/x/", "a/x/y=fY"})},
				{Name: "two layers", Bound: "top and plain lower: 8 contents of a, 2-3 of b each, every marking of the root, a and a/x", Body: two(".", "a", "a/x")},
				{Name: "three layers", Bound: "top, canonical lower, plain lower: 8 contents of a each, every marking of a in the top, a and a/x in the middle", Body: three([]string{"a"}, []string{"a", "a/x"})},
			}
			if th {
				out = append(out,
					core.Scenario{Name: "five layers, more contents", Bound: "as five layers, 4 contents of a each", Body: deep(5, viewA[0], viewA[1], viewA[4], viewA[6])},
					core.Scenario{Name: "six layers", Bound: "as five layers with five canonical layers", Body: deep(6, viewA[0], []string{"a/", "a/x/", "a/x/y=fY"})},
					core.Scenario{Name: "two layers, all marks", Bound: "as two layers, every marking of the root, a, a/x, a/x/y, b", Body: two(".", "a", "a/x", "a/x/y", "b")},
					core.Scenario{Name: "three layers, all marks", Bound: "as three layers, every marking of the root, a, a/x in the top and of the root, a, a/x, b in the middle", Body: three([]string{".", "a", "a/x"}, []string{".", "a", "a/x", "b"})})
			}
			return out
		},
	})
}
