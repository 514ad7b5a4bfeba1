package fsu

import (
	"errors"
	"io/fs"
	"os"
	"path"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/mc/core"
	"verif.local/mc/reffs"
)

func openRandom(c *core.C) {
	f := reffs.New()
	_ = f.Mkdir("d", 0o755)
	f.Put("d/keep", "k", 0o644)
	before := dumpMap(f)
	dir := core.Pick(c, "", ".", "d", "d/", "missing")
	pattern := core.Pick(c, "", "*", "p*s", "p", "a*b*c", "x.*.tmp", "a/b", "*/", "/x*")
	perm := core.Pick(c, fs.FileMode(0o644), 0o400, 0, 0o666, 0o777, 0o755|fs.ModeSetuid)
	mk := c.Bool()
	collide := core.Pick(c, 0, 1, 3, 10000, 20000)
	if collide >= 10000 && (perm != 0o644 || pattern != "p*s" || dir != "d") {
		c.Prune()
	}
	failAt := c.Choose(4) // the operation after the collisions that fails; 0 none
	n, attempts := 0, 0
	f.Before = func(op reffs.Op) (int, error) {
		if op.Name == "open" && !mk {
			attempts++
			if op.Flag&(os.O_CREATE|os.O_EXCL) != os.O_CREATE|os.O_EXCL {
				c.Fail("not-exclusive", "opened with flags %#x", op.Flag)
			}
		}
		if op.Name == "mkdir" {
			attempts++
		}
		if attempts <= collide && (op.Name == "mkdir" || op.Name == "open") {
			return 0, syscall.EEXIST
		}
		n++
		if n == failAt {
			return 0, errFault
		}
		return 0, nil
	}
	c.Step()
	c.Logf("dir=%q pattern=%q perm=%v mkdir=%v collide=%d failAt=%d", dir, pattern, perm, mk, collide, failAt)
	var h vroot.File
	var err error
	if mk {
		h, err = fsutil.MkdirRandom(fsT(f), dir, pattern, perm)
	} else {
		h, err = fsutil.OpenFileRandom(fsT(f), dir, pattern, perm)
	}
	f.Before = nil
	after := dumpMap(f)
	c.Logf("err=%v", err)
	if strings.Contains(pattern, "/") {
		if !errors.Is(err, fsutil.ErrBadPattern) || attempts > 0 {
			c.Fail("bad-pattern", "pattern %q: %v", pattern, err)
		}
	}
	if err != nil {
		if d := diff(before, after, func(string) bool { return false }); d != "" {
			c.Fail("litter", "%s", d)
		}
		if collide == 20000 && !errors.Is(err, fsutil.ErrMaxRetry) {
			c.Fail("retry", "endless collisions: %v", err)
		}
		if collide < 10000 && !strings.Contains(pattern, "/") {
			if errors.Is(err, fsutil.ErrMaxRetry) {
				c.Fail("retry", "gave up after %d attempts", attempts)
			}
			if !errors.Is(err, errFault) && dir != "missing" {
				c.Fail("spurious-error", "%v", err)
			}
		}
		if f.Open_ != 0 {
			c.Fail("handle-leak", "handle left open")
		}
		return
	}
	if collide == 20000 || dir == "missing" || (failAt > 0 && n >= failAt) {
		c.Fail("error-swallowed", "success although creation failed")
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	re := regexp.MustCompile("^" + regexp.QuoteMeta(pre) + "[0-9]{10}" + regexp.QuoteMeta(suf) + "$")
	var made []string
	for k, v := range after {
		if before[k] != v {
			made = append(made, k)
			wantDir := path.Clean(dir)
			if dir == "" {
				wantDir = "."
			}
			if path.Dir(k) != wantDir || !re.MatchString(path.Base(k)) {
				c.Fail("wrong-name", "made %q", k)
			}
			want := "file " + (perm.Perm() | 0o200).String() + " "
			if mk {
				want = "dir " + (perm.Perm() | fs.ModeDir).String()
			}
			if v != want {
				c.Fail("wrong-entry", "made %q, want %q", v, want)
			}
			if path.Base(h.Name()) != path.Base(k) {
				c.Fail("wrong-handle", "the handle is for %q", h.Name())
			}
		}
	}
	if len(made) != 1 {
		c.Fail("litter", "made %q", made)
	}
	if !mk {
		if _, err := h.Write([]byte("x")); err != nil {
			c.Fail("not-writable", "%v", err)
		}
	}
	_ = h.Close()
	c.Distinct(c.History())
}

func tempNames(c *core.C) {
	unit := core.Pick(c, "a", "é", "あ", "😀", "\xff", "aあ", "a\xe3", ".", "*")
	total := 200 + c.Choose(60)
	name := strings.Repeat(unit, total/len(unit))
	name += strings.Repeat("b", c.Choose(4))
	f := reffs.New()
	dir := core.Pick(c, "", "d/")
	_ = f.Mkdir("d", 0o755)
	c.Step()
	pol := fsutil.NewTempFilePolicyRandom[fsT, vroot.File]()
	mk := c.Bool()
	var h vroot.File
	var d string
	var err error
	if mk {
		h, d, err = pol.Mkdir(f, dir+name, 0o755)
	} else {
		h, d, err = pol.Create(f, dir+name, 0o644)
	}
	if err != nil {
		c.Fail("spurious-error", "%v", err)
	}
	if d != path.Dir(dir+"x") {
		c.Fail("temp-dir", "made in %q", d)
	}
	base := path.Base(h.Name())
	if len(base) > 255 {
		c.Fail("name-too-long", "a %d-byte name for a target of %d bytes", len(base), len(name))
	}
	if len(name) <= 240 && !strings.HasPrefix(base, name+".") {
		c.Fail("name-cut", "needlessly shortened %d bytes to %q", len(name), base)
	}
	if utf8.ValidString(name) && !utf8.ValidString(base) {
		c.Fail("name-split", "a rune was split: %q", base)
	}
	if len(name) > 240 && len(base) < 255-3 {
		c.Fail("name-cut", "shortened to %d bytes", len(base))
	}
	if !pol.Match(base) || !pol.Match(path.Join("any/where", base)) {
		c.Fail("unmatched", "the policy does not recognise its own %q", base)
	}
	_ = h.Close()
	c.Distinct(name + dir)
}

func truncate(c *core.C) {
	alpha := []string{"a", "é", "あ", "😀", "\xff", "\xe3\x81"}
	s := ""
	for i := c.Choose(5); i > 0; i-- {
		s += alpha[c.Choose(len(alpha))]
	}
	limit := c.Choose(len(s)+4) - 1
	c.Step()
	got := fsutil.TruncateUTF8(s, limit)
	want := ""
	switch {
	case limit <= 0:
	case len(s) <= limit:
		want = s
	default:
		for i := range s { // rune starts
			if i <= limit {
				want = s[:i]
			}
		}
	}
	if got != want {
		c.Fail("truncate", "TruncateUTF8(%q,%d)=%q want %q", s, limit, got, want)
	}
	c.Distinct(s)
}

var (
	nameParts = []string{"a", ".", "b.txt", "0123456789", "012345678", "01234567890", "012345678x", "٠١٢٣٤", ".tmp", "tmp", "/", "../"}
	randomRe  = regexp.MustCompile(`(?s)^.+\.[0-9]{10}\.tmp$`)
	dirRe     = regexp.MustCompile(`^[0-9]{10}\.tmp$`)
	tempDirs  = []string{"tmp", "d/tmp", "./tmp/", "d//tmp", ".", ""}
)

// matchNames: a policy recognises exactly the shape of names it makes.
func matchNames(n int) func(c *core.C) {
	return func(c *core.C) {
		s := ""
		for i := 1 + c.Choose(n); i > 0; i-- {
			s += nameParts[c.Choose(len(nameParts))]
		}
		c.Step()
		base := path.Base(path.Clean(s))
		if got, want := fsutil.NewTempFilePolicyRandom[fsT, vroot.File]().Match(s), randomRe.MatchString(base); got != want {
			c.Fail("match", "random names: Match(%q) = %v", s, got)
		}
		for _, t := range tempDirs {
			dir := path.Clean(t)
			clean := path.Clean(s)
			in := strings.HasPrefix(clean, dir+"/") || dir == "." && fs.ValidPath(clean)
			if got, want := fsutil.NewTempFilePolicyDir[fsT, vroot.File](t).Match(s), in && dirRe.MatchString(base); got != want {
				c.Fail("match", "names in %q: Match(%q) = %v", t, s, got)
			}
		}
		c.Distinct(s)
	}
}

// cleanup: walking with a policy's WalkFunc removes what the policy made, also
// a whole directory, and nothing else.
func cleanup(c *core.C) {
	f := reffs.New()
	for _, d := range []string{"d", "d/tmp", "tmp", "x"} {
		_ = f.Mkdir(d, 0o755)
	}
	f.Put("keep", "k", 0o644)
	f.Put("tmp/keep.tmp", "k", 0o644)
	for i := 0; i < 2; i++ {
		dir := core.Pick(c, "", "", "tmp/", "d/", "d/tmp/", "tmp/x/", "x/0000000001.tmp/", "x/t.0000000001.tmp/")
		if dir == "" && i == 0 {
			continue
		}
		name := dir + core.Pick(c, "0123456789.tmp", "t.0123456789.tmp", "t.txt", ".0123456789.tmp", "t.012345678.tmp")
		if !fs.ValidPath(name) {
			c.Prune()
		}
		if _, err := f.Lstat(name); err == nil || f.MkdirAll(path.Dir(name), 0o755) != nil {
			c.Prune()
		}
		switch c.Choose(3) {
		case 0:
			f.Put(name, "y", 0o644)
		case 1:
			_ = f.MkdirAll(name+"/0000000002.tmp", 0o755)
			f.Put(name+"/u.0000000003.tmp", "z", 0o644)
		case 2:
			_ = f.Symlink("../keep", name)
		}
	}
	before := dumpMap(f)
	t := core.Pick(c, append([]string{"random"}, tempDirs...)...)
	var policy fsutil.TempFilePolicy[fsT, vroot.File]
	target := core.Pick(c, "t.txt", "d/t.txt", "x/../d/t")
	var mine string
	doomed := func(p string) bool { return randomRe.MatchString(path.Base(p)) }
	if t == "random" {
		policy = fsutil.NewTempFilePolicyRandom[fsT, vroot.File]()
	} else {
		policy = fsutil.NewTempFilePolicyDir[fsT, vroot.File](t)
		doomed = func(p string) bool { return path.Dir(p) == path.Clean(t) && dirRe.MatchString(path.Base(p)) }
	}
	made := c.Choose(3) // nothing, a file, a directory
	c.Logf("policy %q, makes %d for %q", t, made, target)
	var h vroot.File
	var err error
	var at string
	switch made {
	case 1:
		h, at, err = policy.Create(f, target, 0o640)
	case 2:
		h, at, err = policy.Mkdir(f, target, 0o750)
	}
	if err != nil {
		c.Fail("spurious-error", "%v", err)
	}
	c.Step()
	if made > 0 {
		mine = path.Join(at, path.Base(h.Name()))
		_ = h.Close()
		fi, err := f.Lstat(mine)
		if err != nil || fi.IsDir() != (made == 2) || fi.Mode().Perm() != []fs.FileMode{0, 0o640, 0o750}[made] {
			c.Fail("wrong-entry", "made %v at %q (%v)", fi, mine, err)
		}
		if !policy.Match(mine) {
			c.Fail("unmatched", "the policy does not recognise its own %q", mine)
		}
		if made == 2 {
			f.Put(mine+"/inside", "i", 0o644)
		}
		if target == "x/../d/t" {
			c.Outcome("unclean target")
		}
	}
	if err := vroot.WalkDir(f, ".", &vroot.WalkOption{}, func(p, _ string, d fs.FileInfo, err error) error {
		return policy.WalkFunc(f, p, fs.FileInfoToDirEntry(d), err)
	}); err != nil {
		c.Fail("walk", "%v", err)
	}
	after := dumpMap(f)
	for k, v := range before {
		gone := false
		for p := k; p != "."; p = path.Dir(p) {
			gone = gone || doomed(p)
		}
		// Names below another directory are not looked at by a policy with a
		// directory of its own.
		if _, ok := after[k]; ok == gone {
			c.Fail("cleanup", "%q (%s) gone=%v", k, v, !ok)
		}
	}
	for k := range after {
		if _, ok := before[k]; !ok && k != path.Clean(t) {
			c.Fail("cleanup", "%q was left", k)
		}
	}
	c.Distinct(c.History())
}

// ---- F05 ----

var linkTargets = []string{"f", "d", "d/e", "..", "../f", "l", "m", "d/n", "../../x", "/abs", "d/../f", "missing", ".", "l/..", "m/f", "e/../../f", "n/../f", "../l/f", "d/", "f/", "m/", "f/.", "d//e/./f"}

func resolveTree(c *core.C, links int) *reffs.FS {
	f := reffs.New()
	f.Put("f", "root f", 0o644)
	f.Put("d/f", "d f", 0o644)
	f.Put("d/e/f", "e f", 0o644)
	_ = f.Mkdir("d/e/g", 0o755)
	for _, l := range []string{"l", "m", "d/n"}[:links] {
		if k := c.Choose(len(linkTargets) + 1); k > 0 {
			_ = f.Symlink(linkTargets[k-1], l)
			c.Logf("%s -> %s", l, linkTargets[k-1])
		}
	}
	return f
}

func resolvePath(depth int) func(c *core.C) {
	return func(c *core.C) {
		f := resolveTree(c, 3)
		comps := []string{"l", "d", "m", "n", "f", "e", "missing"}
		var parts []string
		for i := 0; i < depth; i++ {
			k := c.Choose(len(comps) + 1)
			if k == 0 {
				break
			}
			parts = append(parts, comps[k-1])
		}
		name := strings.Join(parts, "/")
		if name == "" {
			name = core.Pick(c, ".", "..", "/f", "../f")
		}
		skip := c.Bool()
		c.Step()
		got, err := fsutil.ResolvePath(f, name, skip)
		c.Logf("ResolvePath(%q, %v) = %q, %v", name, skip, got, err)
		lookup := f.Stat
		if skip {
			lookup = f.Lstat
		}
		want, werr := lookup(name)
		if werr != nil && skip && errors.Is(werr, fs.ErrNotExist) {
			// Only the parent has to exist.
			if p, perr := f.Stat(path.Dir(name)); perr == nil && p.IsDir() {
				if err != nil {
					c.Fail("spurious-error", "%v", err)
				}
				rp, rerr := f.Lstat(path.Dir(got))
				if rerr != nil || rp.(reffs.Info).Ino != p.(reffs.Info).Ino || path.Base(got) != path.Base(name) || !real(f, path.Dir(got)) {
					c.Fail("wrong-place", "resolved to %q", got)
				}
				return
			}
		}
		if werr != nil {
			if err == nil && !skip {
				c.Fail("error-swallowed", "resolved to %q, the kernel says %v", got, werr)
			}
			if err == nil {
				// The last element is not looked at; its parent must be right.
				p, perr := f.Stat(path.Dir(name))
				rp, rerr := f.Lstat(path.Dir(got))
				if perr != nil || rerr != nil || rp.(reffs.Info).Ino != p.(reffs.Info).Ino {
					c.Fail("error-swallowed", "resolved to %q, the kernel says %v", got, werr)
				}
			}
			if err != nil && errors.Is(werr, fs.ErrNotExist) && !errors.Is(err, fs.ErrNotExist) && !errors.Is(err, fsutil.ErrPathEscapes) {
				c.Fail("wrong-error", "%v, the kernel says %v", err, werr)
			}
			if errors.Is(werr, fsutil.ErrPathEscapes) && err != nil && !errors.Is(err, fsutil.ErrPathEscapes) && !errors.Is(err, fs.ErrNotExist) {
				c.Fail("wrong-error", "%v, the kernel says %v", err, werr)
			}
			if errors.Is(err, fs.ErrNotExist) && errors.Is(werr, fs.ErrNotExist) && !skip {
				missing(c, f, name, got)
			}
			c.Outcome("error")
			return
		}
		if err != nil {
			c.Fail("spurious-error", "%v; the kernel resolves it", err)
		}
		if !fs.ValidPath(got) {
			c.Fail("not-local", "resolved to %q", got)
		}
		res, rerr := f.Lstat(got)
		if rerr != nil || res.(reffs.Info).Ino != want.(reffs.Info).Ino {
			c.Fail("wrong-node", "resolved to %q, which is another entry", got)
		}
		dir := got
		if skip {
			dir = path.Dir(got)
		}
		if !real(f, dir) {
			c.Fail("not-resolved", "%q still goes through a symlink", got)
		}
		c.Outcome("resolved")
		c.Distinct(name + got)
	}
}

// missing checks the path given along with a not-exist error: it names what is
// missing free from symlinks, so making it makes the path resolve.
func missing(c *core.C, f *reffs.FS, name, got string) {
	if strings.Contains(c.History(), "..") {
		return // "x/../y" where x is missing is given as "y"
	}
	if !fs.ValidPath(got) {
		c.Fail("missing-path", "the path that is missing: %q", got)
	}
	parts := strings.Split(got, "/")
	at := ""
	for i, p := range parts {
		at = path.Join(at, p)
		fi, err := f.Lstat(at)
		switch {
		case err != nil:
			_ = f.MkdirAll(got, 0o755)
			a, aerr := f.Stat(name)
			b, berr := f.Lstat(got)
			if aerr == nil && berr == nil && a.(reffs.Info).Ino != b.(reffs.Info).Ino {
				c.Fail("missing-path", "%q was made, %q leads elsewhere", got, name)
			}
			return
		case fi.Mode()&fs.ModeSymlink != 0, !fi.IsDir() && i < len(parts)-1:
			c.Fail("missing-path", "the path that is missing: %q, and %q is %v", got, at, fi.Mode())
		}
	}
	c.Fail("missing-path", "the path that is missing: %q exists", got)
}

// chains: as many links as one likes up to the limit, however they are met.
func chains(c *core.C) {
	n := core.Pick(c, 0, 1, 2, 8, 9, 20, 38, 39, 40, 41, 60)
	f := reffs.New()
	f.Put("end/f", "f", 0o644)
	_ = f.Symlink(".", "self")
	_ = f.Symlink("loop", "loop")
	_ = f.Symlink("x/loop2", "loop2")
	_ = f.Symlink(".", "x")
	last := "end"
	for i := n; i > 0; i-- {
		k := "c" + strconv.Itoa(i)
		_ = f.Symlink(last, k)
		last = k
	}
	shape := c.Choose(5)
	name, follow, skip := "", n, c.Bool()
	switch shape {
	case 0: // one after the other
		name = last + "/f"
	case 1: // side by side
		name = strings.Repeat("self/", n) + "end/f"
	case 2: // half and half
		name = strings.Repeat("self/", n/2) + "c" + strconv.Itoa(n/2+1) + "/f"
		if n == 0 {
			c.Prune()
		}
	case 3: // in the last element
		name, follow = strings.Repeat("self/", n)+last, 2*n
		if skip {
			follow = n
		}
	case 4:
		name, follow = strings.Repeat("self/", n)+core.Pick(c, "loop", "loop2")+"/f", 1000
	}
	c.Step()
	got, err := fsutil.ResolvePath(f, name, skip)
	c.Logf("%d links: ResolvePath(%q, %v) = %q, %v", follow, name, skip, got, err)
	want := "end/f"
	if shape == 3 {
		want = "end"
		if skip && n > 0 {
			want = "c1"
		}
	}
	switch {
	case follow < 40 && (err != nil || got != want):
		c.Fail("chain", "%q, %v", got, err)
	case follow > 40 && !errors.Is(err, syscall.ELOOP):
		c.Fail("endless", "%q, %v", got, err)
	case follow == 40 && (err != nil || got != want) && !errors.Is(err, syscall.ELOOP):
		c.Fail("chain", "%q, %v", got, err)
	}
	// By hand, with a limit of one's own.
	if skip || n == 0 {
		return
	}
	limit := core.Pick(c, -1, 0, 1, 2, n-1, n, n+1)
	got, num, err := fsutil.ResolveSymlink(f, "c1", limit)
	c.Logf("%d links: ResolveSymlink(c1, %d) = %q, %d, %v", n, limit, got, num, err)
	switch {
	case limit >= n && (err != nil || got != "end" || num != n):
		c.Fail("symlink", "%q, %d, %v", got, num, err)
	case limit < n && (!errors.Is(err, syscall.ELOOP) || got != "" || num != max(limit, 0)):
		c.Fail("symlink-limit", "%q, %d, %v", got, num, err)
	}
}

// resolveLink: ResolveSymlink agrees with the kernel on every single link.
func resolveLink(c *core.C) {
	f := resolveTree(c, 3)
	link := core.Pick(c, "l", "m", "d/n", "f", "d", "missing", "./l", "d/../l", "d/n/", "x/y")
	c.Step()
	got, num, err := fsutil.ResolveSymlink(f, link, 30)
	c.Logf("ResolveSymlink(%q) = %q, %d, %v", link, got, num, err)
	fi, lerr := f.Lstat(path.Clean(link))
	if lerr != nil || fi.Mode()&fs.ModeSymlink == 0 {
		if err == nil {
			c.Fail("not-a-link", "%q, %d", got, num)
		}
		if lerr != nil && !errors.Is(err, fs.ErrNotExist) {
			c.Fail("wrong-error", "%v", err)
		}
		return
	}
	want, werr := f.Stat(path.Clean(link))
	switch {
	case werr == nil && (err != nil || got == "" || num < 1):
		c.Fail("spurious-error", "%q, %d, %v", got, num, err)
	case werr == nil:
		res, rerr := f.Lstat(got)
		if rerr != nil || res.(reffs.Info).Ino != want.(reffs.Info).Ino || !real(f, got) {
			c.Fail("wrong-node", "resolved to %q", got)
		}
		c.Distinct(got)
	case errors.Is(werr, fsutil.ErrPathEscapes):
		// Beyond the root nothing can be said; the link may break first.
		if err == nil && got != "" || err != nil && !errors.Is(err, fs.ErrNotExist) {
			c.Fail("escape", "%q, %d, %v", got, num, err)
		}
	case err == nil:
		if got != "" || !escapes(f, link) {
			c.Fail("error-swallowed", "%q, the kernel says %v", got, werr)
		}
	case errors.Is(werr, fs.ErrNotExist) && !errors.Is(err, fs.ErrNotExist),
		errors.Is(werr, syscall.ELOOP) && !errors.Is(err, syscall.ELOOP),
		errors.Is(werr, syscall.ENOTDIR) && !errors.Is(err, syscall.ENOTDIR):
		c.Fail("wrong-error", "%v, the kernel says %v", err, werr)
	}
}

// escapes reports whether following link names something beyond the root.
func escapes(f *reffs.FS, link string) bool {
	_, err := f.Stat(link)
	return errors.Is(err, fsutil.ErrPathEscapes)
}

// real reports whether no component of p is a symlink.
func real(f *reffs.FS, p string) bool {
	n := f.Root
	if p == "." {
		return true
	}
	for _, k := range strings.Split(p, "/") {
		n = n.Kids[k]
		if n == nil || n.Mode&fs.ModeSymlink != 0 {
			return false
		}
	}
	return true
}

func init() {
	core.Register(&core.Property{
		ID:   "F04",
		Rule: "every directory, pattern, permission, number of collisions and failing operation listed; every target name shape around the 255-byte limit; every string of up to 4 units and every limit for truncation",
		Scenarios: func(th bool) []core.Scenario {
			m := 4
			if th {
				m = 5
			}
			return []core.Scenario{
				{Name: "open", Bound: "5 directories x 9 patterns x 6 modes x 5 collision counts x 4 failures", Body: openRandom},
				{Name: "names", Bound: "9 units x lengths 200..262", Body: tempNames},
				{Name: "match", Bound: "strings of up to 4 (5 thorough) parts from 12, random names and 6 directories", Body: matchNames(m)},
				{Name: "cleanup", Bound: "trees with up to 2 of 5 names in 7 directories as file, directory or link; 7 policies x 3 targets x nothing, file or directory made", Body: cleanup},
				{Name: "truncate", Bound: "strings of up to 4 units from 6", Body: truncate},
			}
		},
	})
	core.Register(&core.Property{
		ID:          "F05",
		Rule:        "every tree with three symlinks over 23 targets and every path of bounded depth, judged by a kernel-like resolver",
		Assumptions: []string{"the tree does not change during resolution (documented TOCTOU)"},
		Scenarios: func(th bool) []core.Scenario {
			d := 2
			if th {
				d = 3
			}
			return []core.Scenario{
				{Name: "resolve", Bound: "24^3 link configurations, paths to depth 2 (3 thorough)", Body: resolvePath(d)},
				{Name: "links", Bound: "24^3 link configurations, 10 spellings given to ResolveSymlink", Body: resolveLink},
				{Name: "chains", Bound: "0 to 60 links, one after the other, side by side and both; limits around the length", Body: chains},
			}
		},
	})
}
