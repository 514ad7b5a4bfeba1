From 6501c0d0a27b916a29bd604715ddac2d0e035a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 01/65] fix: report a last segment shorter than declared
 instead of io.EOF

---
 stream/multi_read_at_closer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stream/multi_read_at_closer.go b/stream/multi_read_at_closer.go
index af3e5ca..e10ad93 100644
--- a/stream/multi_read_at_closer.go
+++ b/stream/multi_read_at_closer.go
@@ -163,7 +163,9 @@ func (r *multiReadAtSeekCloser) Read(p []byte) (int, error) {
 		return n, wrapErr(ErrInvalidSize, "read more")
 	case err == io.EOF && n == 0 && rem > 0:
 		return n, wrapErr(io.ErrUnexpectedEOF, "read less")
-	case err == io.EOF && len(r.r)-1 > r.idx:
+	case err == io.EOF && (len(r.r)-1 > r.idx || int64(n) < rem):
+		// If n < rem the reader has less than reported.
+		// Let the next call, which reads nothing, report it.
 		err = nil
 	}
 
@@ -248,7 +250,8 @@ func (r *multiReadAtSeekCloser) readAt(p []byte, off int64) (n int, err error) {
 		return n, wrapErr(ErrInvalidSize, "read more")
 	case err == io.EOF && n == 0 && rem > 0:
 		return n, wrapErr(io.ErrUnexpectedEOF, "read less")
-	case err == io.EOF && len(r.r)-1 > i:
+	case err == io.EOF && (len(r.r)-1 > i || int64(n) < rem):
+		// If n < rem and p still has room, ReadAt calls this again and it reports that.
 		err = nil
 	}
 	return n, err
-- 
2.43.0


From aa02feb005a3ce34ef01af545dc22e64a0e207fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 02/65] fix: report the failing reader's index when Read
 crosses a segment boundary

---
 stream/multi_read_at_closer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stream/multi_read_at_closer.go b/stream/multi_read_at_closer.go
index e10ad93..8b40931 100644
--- a/stream/multi_read_at_closer.go
+++ b/stream/multi_read_at_closer.go
@@ -140,6 +140,7 @@ func (r *multiReadAtSeekCloser) Read(p []byte) (int, error) {
 
 	i := search(r.off, r.r[r.idx:])
 	rr := r.r[r.idx:][i]
+	errIdx := r.idx + i
 
 	off := r.off
 	readerOff := r.off - rr.headOff
@@ -151,7 +152,7 @@ func (r *multiReadAtSeekCloser) Read(p []byte) (int, error) {
 	}
 
 	wrapErr := func(err error, cause string) error {
-		return &MultiReadError{r.idx, readerOff, off, len(p), err, cause}
+		return &MultiReadError{errIdx, readerOff, off, len(p), err, cause}
 	}
 
 	if err != nil && err != io.EOF {
-- 
2.43.0


From 15702108c0e552fb8fa54db6256c95bc9828e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 03/65] fix: fileserver Get rejects a 206 whose range does not
 start at the requested offset

---
 stream/fileserver/client.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index 6c90fc5..519ebdc 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -192,7 +192,10 @@ func (c *HTTPClient) Get(
 
 	case http.StatusPartialContent: // 206
 		// Total size is in Content-Range: bytes <from>-<to>/<total>.
-		total, err := parseTotalFromContentRange(resp.Header.Get("Content-Range"))
+		from, total, err := parseContentRange(resp.Header.Get("Content-Range"))
+		if err == nil && from != offset {
+			err = fmt.Errorf("range starts at %d, need %d", from, offset)
+		}
 		if err != nil {
 			_, _ = io.Copy(io.Discard, resp.Body)
 			_ = resp.Body.Close()
@@ -289,27 +292,35 @@ func (c *HTTPClient) Put(
 	return nil
 }
 
-// parseTotalFromContentRange parses the total size from a Content-Range
-// header value of the form "bytes <from>-<to>/<total>".
-func parseTotalFromContentRange(s string) (int64, error) {
+// parseContentRange parses the start offset and the total size from a
+// Content-Range header value of the form "bytes <from>-<to>/<total>".
+func parseContentRange(s string) (from, total int64, err error) {
 	// Expected: "bytes 1024-2047/4096"
 	if s == "" {
-		return 0, errors.New("Content-Range header missing")
+		return 0, 0, errors.New("Content-Range header missing")
 	}
 	// Strip "bytes " prefix.
 	s = strings.TrimPrefix(s, "bytes ")
 	// Find the slash separating range from total.
 	slashIdx := strings.LastIndex(s, "/")
 	if slashIdx < 0 {
-		return 0, fmt.Errorf("malformed Content-Range %q: no slash", s)
+		return 0, 0, fmt.Errorf("malformed Content-Range %q: no slash", s)
 	}
 	totalStr := s[slashIdx+1:]
 	if totalStr == "*" {
-		return 0, fmt.Errorf("Content-Range total is unknown (*)")
+		return 0, 0, fmt.Errorf("Content-Range total is unknown (*)")
+	}
+	total, err = strconv.ParseInt(totalStr, 10, 64)
+	if err != nil {
+		return 0, 0, fmt.Errorf("Content-Range total parse: %w", err)
+	}
+	fromStr, _, ok := strings.Cut(s[:slashIdx], "-")
+	if !ok {
+		return 0, 0, fmt.Errorf("malformed Content-Range %q: no range", s)
 	}
-	total, err := strconv.ParseInt(totalStr, 10, 64)
+	from, err = strconv.ParseInt(fromStr, 10, 64)
 	if err != nil {
-		return 0, fmt.Errorf("Content-Range total parse: %w", err)
+		return 0, 0, fmt.Errorf("Content-Range start parse: %w", err)
 	}
-	return total, nil
+	return from, total, nil
 }
-- 
2.43.0


From 2d98025e806bc7b3c86b477cebb1b473b26630b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 04/65] fix: tarfs panics on directories the archive has no
 header for

---
 tarfs/entdir.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index 10bff9f..ca67b37 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -20,6 +20,21 @@ type dir struct {
 	ordered []direntry
 }
 
+// newImplicitDir returns a directory that has no header in the archive,
+// only entries beneath it.
+func newImplicitDir(parent *dir, name string) *dir {
+	return &dir{
+		h: &Section{
+			h: &tar.Header{
+				Typeflag: tar.TypeDir,
+				Name:     name + "/",
+				Mode:     0o755,
+			},
+		},
+		parent: parent,
+	}
+}
+
 func (d *dir) header() *Section {
 	return d.h
 }
@@ -53,14 +68,14 @@ func (d *dir) addChild(name string, hdr *Section) {
 			// Intermediate component - ensure directory exists
 			child, ok := currentDir.files[component]
 			if !ok {
-				child = &dir{parent: currentDir}
+				child = newImplicitDir(currentDir, component)
 				currentDir.files[component] = child
 				currentDir.ordered = append(currentDir.ordered, child)
 			}
 			_, ok = child.(*dir)
 			if !ok {
 				// TODO: warn about this?
-				child = &dir{parent: currentDir}
+				child = newImplicitDir(currentDir, component)
 				currentDir.files[component] = child
 				currentDir.ordered = append(currentDir.ordered, child)
 			}
-- 
2.43.0


From 92f94b54d2bf3c785682ced382f9f230e9fe7181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 05/65] fix: tarfs lists a non-directory replaced by a
 directory twice

---
 tarfs/entdir.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index ca67b37..1216571 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"slices"
 	"strings"
 	"sync"
 	"syscall"
@@ -75,9 +76,11 @@ func (d *dir) addChild(name string, hdr *Section) {
 			_, ok = child.(*dir)
 			if !ok {
 				// TODO: warn about this?
+				// Replace it also in ordered, otherwise it is listed twice.
+				replaced := child
 				child = newImplicitDir(currentDir, component)
 				currentDir.files[component] = child
-				currentDir.ordered = append(currentDir.ordered, child)
+				currentDir.ordered[slices.Index(currentDir.ordered, replaced)] = child
 			}
 			currentDir = child.(*dir)
 			// Ensure the child directory has an initialized files map and parent link
-- 
2.43.0


From e6c676cabce68174204bd5c9ed3feea7f61e5383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 06/65] fix: tarfs drops names beginning with two dots and
 panics on absolute names

---
 tarfs/fs.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tarfs/fs.go b/tarfs/fs.go
index cb84efa..9d74499 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -7,7 +7,6 @@ import (
 	"maps"
 	"path"
 	"slices"
-	"strings"
 	"time"
 )
 
@@ -68,8 +67,8 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 	delete(headers, ".")
 
 	for _, key := range slices.Sorted(maps.Keys(headers)) {
-		if strings.HasPrefix(key, "..") {
-			// reject paths traversing upward even when tarinsecurepath = 1.
+		if !fs.ValidPath(key) {
+			// reject paths traversing upward even when tarinsecurepath = 1, and absolute ones.
 			// Anyway fs.ValidPath check will reject this.
 			continue
 		}
-- 
2.43.0


From 19b2a9682abb7de4214ef48e2edc5d64d8370ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 07/65] fix: tarfs mis-resolves symlink targets that contain .
 or end in ..

---
 tarfs/entdir.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index 1216571..331c9e7 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -148,7 +148,8 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 
 		switch component {
 		case ".":
-			return currentDir, nil
+			currentDirent = currentDir
+			continue
 		case "..":
 			if fsys.isRooted && (currentDir == fsys.root || currentDir == fsys.subRoot) {
 				return nil, pathErr("open", name, fsutil.ErrPathEscapes)
@@ -157,6 +158,7 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 				return nil, pathErr("open", name, fs.ErrNotExist)
 			}
 			currentDir = currentDir.parent
+			currentDirent = currentDir
 			continue
 		}
 
-- 
2.43.0


From a71c80559bf7cf03a053d75e580129758ef0aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 08/65] fix: tarfs panics or overflows the stack on hard links
 to hard links

---
 tarfs/entdir.go | 16 +++++++++-------
 tarfs/fs.go     | 26 ++++++++++++++++++++++----
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index 331c9e7..032a3b1 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -128,13 +128,15 @@ func (d *dir) openChild(name string, skipLastComponent bool, fsys *Fs) (direntry
 	if name == "." {
 		return d, nil
 	}
-	return d.openChildResolve(name, skipLastComponent, fsys)
+	resolved := 0
+	return d.openChildResolve(name, skipLastComponent, fsys, &resolved)
 }
 
-func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (direntry, error) {
-	const maxSymlinkResolution = 40
-	currentResolved := 0
+// maxSymlinkResolution limits how many links a single lookup follows.
+const maxSymlinkResolution = 40
 
+// openChildResolve resolves name from d. resolved counts links followed so far.
+func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs, resolved *int) (direntry, error) {
 	var (
 		currentDir               = d
 		currentDirent   direntry = d
@@ -170,10 +172,10 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 		if !isLastComponent || !skipLastComponent {
 			// Need to potentially resolve symlinks
 			if symlink, ok := currentDirent.(*symlink); ok {
-				if currentResolved >= maxSymlinkResolution {
+				if *resolved >= maxSymlinkResolution {
 					return nil, pathErr("open", name, errdef.ELOOP)
 				}
-				currentResolved++
+				*resolved++
 
 				target, _ := symlink.readLink()
 
@@ -196,7 +198,7 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 				continue
 			case *hardlink:
 				// This is almost impossible but handle anyway
-				target, err := fsys.resolveHardlink(x)
+				target, err := fsys.resolveHardlink(x, resolved)
 				if err != nil {
 					return nil, err
 				}
diff --git a/tarfs/fs.go b/tarfs/fs.go
index 9d74499..8e68ef6 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -8,6 +8,8 @@ import (
 	"path"
 	"slices"
 	"time"
+
+	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
 )
 
 var _ fs.FS = (*Fs)(nil)
@@ -97,9 +99,24 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 	return fsys, nil
 }
 
-func (fsys *Fs) resolveHardlink(hl *hardlink) (direntry, error) {
-	target := path.Clean(hl.header().Header().Linkname)
-	return fsys.root.openChild(target, false, fsys)
+// resolveHardlink returns the entry hl is a link to. The target may be another hard link.
+func (fsys *Fs) resolveHardlink(hl *hardlink, resolved *int) (direntry, error) {
+	for {
+		target := path.Clean(hl.header().Header().Linkname)
+		if *resolved >= maxSymlinkResolution {
+			return nil, pathErr("open", target, errdef.ELOOP)
+		}
+		*resolved++
+		dirent, err := fsys.root.openChildResolve(target, false, fsys, resolved)
+		if err != nil {
+			return nil, err
+		}
+		next, ok := dirent.(*hardlink)
+		if !ok {
+			return dirent, nil
+		}
+		hl = next
+	}
 }
 
 func (fsys *Fs) findFile(name string, skipLastElement bool) (direntry, error) {
@@ -116,7 +133,8 @@ func (fsys *Fs) findFile(name string, skipLastElement bool) (direntry, error) {
 
 	// Handle hardlinks
 	if hl, ok := dirent.(*hardlink); ok {
-		target, err := fsys.resolveHardlink(hl)
+		resolved := 0
+		target, err := fsys.resolveHardlink(hl, &resolved)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 336d06466b023281782bd7bfbd2bd870289dd572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 09/65] fix: tarfs reports size 0 for hard links

---
 tarfs/fs.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/tarfs/fs.go b/tarfs/fs.go
index 8e68ef6..f0ee112 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -96,9 +96,31 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 	// But different for sub-fsys returned from Sub.
 	fsys.root = fsys.subRoot
 
+	fsys.setHardlinkSize(fsys.root)
+
 	return fsys, nil
 }
 
+// setHardlinkSize sets size of hard links under d to that of linked files.
+// Headers of hard links record no size but Stat and ReadDir report headers.
+func (fsys *Fs) setHardlinkSize(d *dir) {
+	for _, dirent := range d.ordered {
+		switch x := dirent.(type) {
+		case *dir:
+			fsys.setHardlinkSize(x)
+		case *hardlink:
+			resolved := 0
+			target, err := fsys.resolveHardlink(x, &resolved)
+			if err != nil {
+				continue
+			}
+			if f, ok := target.(*file); ok {
+				x.h.h.Size = f.h.h.Size
+			}
+		}
+	}
+}
+
 // resolveHardlink returns the entry hl is a link to. The target may be another hard link.
 func (fsys *Fs) resolveHardlink(hl *hardlink, resolved *int) (direntry, error) {
 	for {
-- 
2.43.0


From 7d21e7e28bf8d296d0d7884fdc222f4d3eaa42c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 10/65] fix: tarfs takes a non-directory header named . as its
 root

---
 tarfs/fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/fs.go b/tarfs/fs.go
index f0ee112..e1b67b8 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -51,7 +51,7 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 		isRooted: opt.IsRooted,
 	}
 
-	if rootHeader, ok := headers["."]; ok {
+	if rootHeader, ok := headers["."]; ok && rootHeader.h.Typeflag == tar.TypeDir {
 		fsys.subRoot = &dir{h: rootHeader}
 	} else {
 		// Is it even possible?
-- 
2.43.0


From 306af9c6d8f6c90359fc17a596621dd0bbc35e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 11/65] fix: tarfs cleans symlink targets lexically before
 resolving them

---
 tarfs/entdir.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index 032a3b1..6015f99 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -149,7 +149,7 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs, re
 		isLastComponent = len(rest) == 0
 
 		switch component {
-		case ".":
+		case "", ".":
 			currentDirent = currentDir
 			continue
 		case "..":
@@ -177,14 +177,15 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs, re
 				}
 				*resolved++
 
-				target, _ := symlink.readLink()
+				// Not cleaned lexically: ".." after a symlink is relative to where the link leads.
+				target := symlink.header().Header().Linkname
 
 				// Check for absolute symlinks - they always escape our filesystem root
 				if strings.HasPrefix(target, "/") {
 					return nil, pathErr("open", name, fsutil.ErrPathEscapes)
 				}
 
-				rest = target + "/" + rest
+				rest = strings.TrimRight(target, "/") + "/" + rest
 
 				continue
 			}
-- 
2.43.0


From 63ff0ace85f3fe7001a96102e9b6e9f6bdec08d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 12/65] fix: httprange leaves credentials of a nested url.Error
 in error text

---
 stream/httprange/redact.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stream/httprange/redact.go b/stream/httprange/redact.go
index 207ea62..b83b00a 100644
--- a/stream/httprange/redact.go
+++ b/stream/httprange/redact.go
@@ -35,9 +35,9 @@ func redactRawURL(raw string) string {
 // tree with its redacted form, so that presigned tokens, basic-auth
 // passwords and the like never reach error text.
 //
-// The underlying Err is carried over untouched, keeping [errors.Is] and
-// [errors.AsType] working through the result. Any error not built around a
-// [url.Error] is returned as is.
+// The underlying Err is carried over, itself redacted in case it holds another
+// [url.Error], keeping [errors.Is] and [errors.AsType] working through the
+// result. Any error not built around a [url.Error] is returned as is.
 func redactURLError(err error) error {
 	ue, ok := errors.AsType[*url.Error](err)
 	if !ok {
@@ -46,6 +46,6 @@ func redactURLError(err error) error {
 	return &url.Error{
 		Op:  ue.Op,
 		URL: redactRawURL(ue.URL),
-		Err: ue.Err,
+		Err: redactURLError(ue.Err),
 	}
 }
-- 
2.43.0


From de2b21cc321528e28b5591c77688e95a2d8eedc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 13/65] fix: fileserver leaks credentials of nested or
 unparsable URLs in error text

---
 stream/fileserver/client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index 519ebdc..160b919 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -127,7 +127,8 @@ func redactURLError(err error) error {
 		return err
 	}
 	// Parse and redact the URL embedded in the *url.Error.
-	redacted := ue.URL
+	// An unparsable URL can still carry a credential, so it is dropped whole.
+	redacted := "[redacted url]"
 	if u, parseErr := url.Parse(ue.URL); parseErr == nil {
 		u.User = nil
 		u.RawQuery = ""
@@ -137,7 +138,8 @@ func redactURLError(err error) error {
 	return &url.Error{
 		Op:  ue.Op,
 		URL: redacted,
-		Err: ue.Err,
+		// A transport may itself wrap another *url.Error.
+		Err: redactURLError(ue.Err),
 	}
 }
 
-- 
2.43.0


From 80cc834f1b07ac51a6834d2f440571f376a82e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 14/65] fix: MkdirRandom leaves its directory behind when
 opening it fails

---
 fsutil/open_random.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fsutil/open_random.go b/fsutil/open_random.go
index 28e6363..1b5b037 100644
--- a/fsutil/open_random.go
+++ b/fsutil/open_random.go
@@ -67,7 +67,18 @@ func MkdirRandom[FS interface {
 			if err != nil {
 				return *new(File), err
 			}
-			return fsys.OpenFile(name, os.O_RDONLY, 0)
+			f, err := fsys.OpenFile(name, os.O_RDONLY, 0)
+			if err != nil {
+				// The caller never learns the name: do not leave it behind.
+				switch rm := any(fsys).(type) {
+				case RemoveFs:
+					_ = rm.Remove(name)
+				case RemoveAllFs:
+					_ = rm.RemoveAll(name)
+				}
+				return f, err
+			}
+			return f, nil
 		},
 	)
 }
-- 
2.43.0


From 70bda3f1ac2a6155da974d585ec4dc78e91cb9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 15/65] fix: Pull never finishes when the part file is larger
 than the source

---
 fsutil/resumable.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 7dfa772..cbd1d9c 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -341,6 +341,9 @@ func (opt ResumableCopyOption[Fsys, File]) Pull(
 		trusted := srcInfo.ETag == "" || // no-etag world: size-based resume
 			srcInfo.ETag == storedETag || // exact sidecar match
 			(storedETag == "" && expected.ETag != "" && srcInfo.ETag == expected.ETag)
+		if srcInfo.Size >= 0 && startAt > srcInfo.Size {
+			trusted = false // oversized partial
+		}
 		if !trusted {
 			_ = r.Close()
 			if rerr := removePartFiles[Fsys, File](fsys, partPath, sidecarPath); rerr != nil {
-- 
2.43.0


From 37d87ea4aa5402c71851ed47821ac1356b03cc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 16/65] fix: a stale ETag sidecar outlives a fresh transfer
 without ETag

---
 fsutil/resumable.go    | 8 ++++++++
 fsutil/resumable_fs.go | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index cbd1d9c..9ce3679 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -398,6 +398,14 @@ func (opt ResumableCopyOption[Fsys, File]) Pull(
 			return WrapPathErr("write-sidecar", sidecarPath, serr)
 		}
 	}
+	if effectiveETag == "" && startAt == 0 {
+		// A sidecar left by an earlier attempt describes other content.
+		serr := fsys.Remove(sidecarPath)
+		if serr != nil && !errors.Is(serr, fs.ErrNotExist) {
+			_ = partFile.Close()
+			return WrapPathErr("remove-sidecar", sidecarPath, serr)
+		}
+	}
 
 	if startAt > 0 {
 		if _, serr := partFile.Seek(startAt, io.SeekStart); serr != nil {
diff --git a/fsutil/resumable_fs.go b/fsutil/resumable_fs.go
index 37164c4..01aac23 100644
--- a/fsutil/resumable_fs.go
+++ b/fsutil/resumable_fs.go
@@ -261,6 +261,13 @@ func (s *FsSink[Fsys, File]) Append(
 			_ = f.Close()
 			return WrapPathErr("write-sidecar", s.sidecarPath(), werr)
 		}
+	} else if offset == 0 {
+		// A sidecar left by an earlier push describes other content.
+		rerr := s.fsys.Remove(s.sidecarPath())
+		if rerr != nil && !errors.Is(rerr, fs.ErrNotExist) {
+			_ = f.Close()
+			return WrapPathErr("remove-sidecar", s.sidecarPath(), rerr)
+		}
 	}
 
 	_, copyErr := io.Copy(f, r)
-- 
2.43.0


From 75d5ba38fb21848bf8f98bf25511a22be8e9859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 17/65] fix: CopyPath fails for a root more than one level deep

---
 fsutil/copy_fs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index 748b875..9b8d4af 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -144,8 +144,10 @@ func (opt CopyFsOption[Fsys, File]) CopyPath(
 		}
 		// Extract the relative part by removing root prefix
 		relDir, err := filepath.Rel(root, dir)
-		if err != nil || relDir == "." {
-			continue // Skip if we can't get relative path or if it's the root itself
+		if err != nil || relDir == "." || !filepath.IsLocal(relDir) {
+			// Skip if we can't get relative path, if it's the root itself
+			// or an ancestor of it.
+			continue
 		}
 		srcInfo, err := fs.Stat(src, filepath.ToSlash(relDir))
 		if err != nil {
-- 
2.43.0


From dd52d2590249c1ad61e504993cf17e7df2fddb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 18/65] fix: CopyAll and CopyPath ignore a failing Close of the
 destination file

---
 fsutil/copy_fs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index 9b8d4af..402217d 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -215,7 +215,6 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 		if err != nil {
 			return err
 		}
-		defer dstFile.Close()
 
 		// Copy content using io.CopyBuffer
 		bufP := bufpool.GetBytes()
@@ -223,6 +222,10 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 
 		buf := *bufP
 		_, err = io.CopyBuffer(dstFile, srcFile, buf)
+		// Close may be the only signal of a lost write.
+		if cerr := dstFile.Close(); err == nil {
+			err = cerr
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From a4466d107b9dfc0009436af4d89dd060b5fb1d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 19/65] fix: ResolvePath applies .. of a symlink target before
 following symlinks

---
 fsutil/resolve_symlink.go | 208 ++++++++++++++++++++++----------------
 1 file changed, 123 insertions(+), 85 deletions(-)

diff --git a/fsutil/resolve_symlink.go b/fsutil/resolve_symlink.go
index ca41409..d833d2d 100644
--- a/fsutil/resolve_symlink.go
+++ b/fsutil/resolve_symlink.go
@@ -1,13 +1,11 @@
 package fsutil
 
 import (
-	"bytes"
-	"cmp"
 	"errors"
 	"io/fs"
-	"os"
 	"path/filepath"
 	"strings"
+	"syscall"
 
 	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
 )
@@ -65,89 +63,126 @@ func ResolvePath(
 		name = name[:idx]
 	}
 
-	curLinkResolved := 0
+	resolved, _, err := walkSymlinks(fsys, name, "", name, 0, maxSymlinkResolutionCount)
+	if err != nil {
+		return resolved, err
+	}
 
-	resolved := new(bytes.Buffer)
+	if lastPart != "" {
+		resolved = filepath.Join(resolved, lastPart)
+	}
+
+	return resolved, nil
+}
 
-	i := 0
-	offStart := 0
-	offEnd := 0
-	for offStart < len(name) {
-		if i > 0 {
-			resolved.WriteByte(filepath.Separator)
+// walkSymlinks resolves remaining, a list of path components, relative to prefix.
+// prefix must be free from symlinks.
+//
+// Unlike [filepath.Clean], ".." components are applied after symlinks before them are followed:
+// they refer to the parent of where symlinks lead to.
+//
+// numSymlink is the number of symlinks already followed.
+// It fails once maxSymlink or more symlinks are followed.
+func walkSymlinks(
+	fsys interface {
+		ReadLinkFs
+		LstatFs
+	},
+	name string,
+	prefix, remaining string,
+	numSymlink, maxSymlink int,
+) (resolved string, _ int, err error) {
+	const sep = string(filepath.Separator)
+
+	resolved = filepath.Clean(prefix)
+	isDir := true
+	lastLink := ""
+	for remaining != "" {
+		comp, rest, found := strings.Cut(remaining, sep)
+
+		if !isDir {
+			// Something is still following a non-directory, at least a separator.
+			return filepath.Join(resolved, remaining), numSymlink, WrapPathErr(
+				"stat",
+				name,
+				syscall.ENOTDIR,
+			)
 		}
 
-		if idx := strings.Index(name[offStart:], string(filepath.Separator)); idx >= 0 {
-			offEnd = offStart + idx
-		} else {
-			offEnd = len(name)
+		switch {
+		case comp == "" || comp == ".":
+			remaining = rest
+			continue
+		case comp == "..":
+			if resolved == "." {
+				return lastLink, numSymlink, ErrPathEscapes
+			}
+			resolved = filepath.Dir(resolved)
+			remaining = rest
+			continue
+		case !filepath.IsLocal(comp):
+			// reserved names on windows.
+			return lastLink, numSymlink, ErrPathEscapes
 		}
 
-		resolved.WriteString(name[offStart:offEnd])
+		current := filepath.Join(resolved, comp)
 
-		info, err := fsys.Lstat(resolved.String())
+		info, err := fsys.Lstat(current)
 		if err != nil {
-			if offEnd < len(name) {
-				resolved.WriteString(name[offEnd:])
-			}
-			return resolved.String(), err
+			return filepath.Join(current, rest), numSymlink, err
 		}
 
 		if info.Mode()&fs.ModeSymlink == 0 {
-			offStart = offEnd + 1
-			i++
+			resolved = current
+			isDir = info.IsDir()
+			if found && rest == "" {
+				// trailing separator
+				rest = "."
+			}
+			remaining = rest
 			continue
 		}
 
-		currentResolved, numSymlink, err := ResolveSymlink(
-			fsys,
-			resolved.String(),
-			maxSymlinkResolutionCount-curLinkResolved,
-		)
+		target, err := fsys.ReadLink(current)
 		if err != nil {
-			return resolved.String(), err
+			return filepath.Join(current, rest), numSymlink, err
 		}
 
-		curLinkResolved += numSymlink
-		if curLinkResolved >= maxSymlinkResolutionCount {
-			return cmp.Or(
-					currentResolved,
-					resolved.String(),
-				), WrapPathErr(
-					"stat",
-					name,
-					errdef.ELOOP,
-				)
-		}
+		lastLink = current
+		numSymlink++
 
-		if currentResolved == "" || !filepath.IsLocal(currentResolved) {
-			// Target is absolute or has "..".
+		target = filepath.FromSlash(target)
+		if isRooted(target) {
 			// *os.Root rejects this anyway, since it cannot tell final result is within root.
 			// *os.Root depends on "at" variants of syscalls(e.g. openat.)
 			// The root directory may be moved after open,
 			// but you don't have robust way to convert an fd back to a path on the filesystem,
 			// maybe even multiple paths are linked to a file.
-			return cmp.Or(currentResolved, resolved.String()), ErrPathEscapes
+			return lastLink, numSymlink, ErrPathEscapes
 		}
 
-		if offEnd >= len(name) {
-			name = currentResolved
-		} else {
-			name = currentResolved + name[offEnd:]
+		remaining = target
+		if found {
+			remaining += sep + rest
 		}
-		i = 0
-		offStart = 0
-		resolved.Reset()
-	}
 
-	if lastPart != "" {
-		if resolved.Len() > 0 {
-			resolved.WriteByte(filepath.Separator)
+		if numSymlink >= maxSymlink {
+			return filepath.Join(resolved, remaining), numSymlink, WrapPathErr(
+				"stat",
+				name,
+				errdef.ELOOP,
+			)
 		}
-		resolved.WriteString(lastPart)
 	}
 
-	return resolved.String(), nil
+	return resolved, numSymlink, nil
+}
+
+// isRooted reports whether target is not relative to the directory holding the symlink.
+func isRooted(target string) bool {
+	return filepath.IsAbs(target) ||
+		filepath.VolumeName(target) != "" ||
+		strings.HasPrefix(target, string(filepath.Separator))
 }
 
 // ResolveSymlink retruns resoluition result with numbers of symlink that has been resolved.
@@ -171,38 +206,41 @@ func ResolveSymlink(
 	linkRealPath string,
 	maxResolution int,
 ) (resolved string, numSymlink int, err error) {
-	resolved = filepath.Clean(linkRealPath)
-	var i int
-	for i = 0; i < maxResolution; i++ {
-		target, err := fsys.ReadLink(resolved)
-		if err != nil {
-			return "", i, err
-		}
+	linkRealPath = filepath.Clean(linkRealPath)
 
-		target = filepath.Clean(target)
-
-		if filepath.IsAbs(target) {
-			// can't tell whether this target is non-symlnk or not,
-			// just return ""
-			return "", i + 1, nil
-		}
-
-		resolved = filepath.Join(filepath.Dir(resolved), target)
+	if maxResolution <= 0 {
+		return "", 0, WrapPathErr("stat", linkRealPath, errdef.ELOOP)
+	}
 
-		if !filepath.IsLocal(resolved) {
-			// same as absolute path,
-			// return just ""
-			return "", i + 1, nil
-		}
+	// ReadLink also tells whether the path is really for a link.
+	target, err := fsys.ReadLink(linkRealPath)
+	if err != nil {
+		return "", 0, err
+	}
+	target = filepath.FromSlash(target)
 
-		info, err := fsys.Lstat(resolved)
-		if err != nil {
-			return "", i, err
-		}
-		if info.Mode()&os.ModeSymlink == 0 {
-			return resolved, i + 1, nil
-		}
+	if isRooted(target) {
+		// can't tell whether this target is non-symlnk or not,
+		// just return ""
+		return "", 1, nil
 	}
 
-	return "", i, WrapPathErr("stat", linkRealPath, errdef.ELOOP)
+	resolved, numSymlink, err = walkSymlinks(
+		fsys,
+		linkRealPath,
+		filepath.Dir(linkRealPath),
+		target,
+		1,
+		maxResolution+1,
+	)
+	switch {
+	case err == nil:
+		return resolved, numSymlink, nil
+	case errors.Is(err, ErrPathEscapes):
+		// same as absolute path,
+		// return just ""
+		return "", numSymlink, nil
+	default:
+		return "", min(numSymlink, maxResolution), err
+	}
 }
-- 
2.43.0


From 3e69a5da8fbe2c237cd9f98f25864dbbfd7a9d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 20/65] fix: synthfs directory listings report stale sizes and
 skip entries after a removal

---
 vroot/synthfs/handle_dir.go | 63 +++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/vroot/synthfs/handle_dir.go b/vroot/synthfs/handle_dir.go
index cb8da4a..eeb7fc8 100644
--- a/vroot/synthfs/handle_dir.go
+++ b/vroot/synthfs/handle_dir.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
-	"path/filepath"
 	"sync"
 	"syscall"
 
@@ -22,7 +21,11 @@ type dirHandle struct {
 
 	mu     sync.Mutex
 	closed bool
-	cursor int
+	// pending holds the entries still to be listed once listed is true. It is
+	// taken at the first read, so entries removed or renamed in between neither
+	// shift nor hide the remaining ones.
+	pending []node
+	listed  bool
 }
 
 var _ vroot.File = (*dirHandle)(nil)
@@ -90,7 +93,7 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 				fmt.Errorf("negative offset %d: %w", offset, fs.ErrInvalid),
 			)
 		}
-		h.cursor = 0
+		h.pending, h.listed = nil, false
 	case io.SeekCurrent:
 		if offset != 0 {
 			return 0, fsutil.WrapPathErr("seek", h.name, fs.ErrInvalid)
@@ -103,9 +106,7 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 				fmt.Errorf("positive offset %d: %w", offset, fs.ErrInvalid),
 			)
 		}
-		h.st.mu.RLock()
-		h.cursor = h.node.ordered.Len()
-		h.st.mu.RUnlock()
+		h.pending, h.listed = nil, true
 	default:
 		return 0, fsutil.WrapPathErr(
 			"seek",
@@ -116,29 +117,37 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 	return 0, nil
 }
 
-// readEntries advances the cursor by up to n entries; n<=0 means "until end."
-// Caller holds h.mu; the returned snapshot is a shallow copy safe to use
-// outside the lock.
-func (h *dirHandle) readEntries(n int) ([]node, error) {
+// readEntries lists up to n further entries; n<=0 means "until end." Entries
+// unlinked from the dir since the listing started are left out.
+// Caller holds h.mu; the stats are taken under the state lock, so they are safe
+// to use outside of it.
+func (h *dirHandle) readEntries(n int) ([]stat, error) {
 	if h.closed {
 		return nil, fsutil.WrapPathErr("readdir", h.name, fs.ErrClosed)
 	}
 	h.st.mu.RLock()
 	defer h.st.mu.RUnlock()
-	all := h.node.entriesSnapshot()
-	if h.cursor >= len(all) {
-		if n <= 0 {
-			return nil, nil
+	if !h.listed {
+		h.pending, h.listed = h.node.entriesSnapshot(), true
+	}
+	var out []stat
+	for len(h.pending) > 0 && (n <= 0 || len(out) < n) {
+		nd := h.pending[0]
+		h.pending = h.pending[1:]
+		if h.node.lookup(nd.meta().name) != nd {
+			continue
 		}
-		return nil, io.EOF
+		s := nd.meta().toStat()
+		if f, ok := nd.(*file); ok {
+			if fresh, err := statFromFileView(&f.metadata, f.view); err == nil {
+				s = fresh
+			}
+		}
+		out = append(out, s)
 	}
-	end := len(all)
-	if n > 0 && h.cursor+n < end {
-		end = h.cursor + n
+	if len(out) == 0 && n > 0 {
+		return nil, io.EOF
 	}
-	out := make([]node, end-h.cursor)
-	copy(out, all[h.cursor:end])
-	h.cursor = end
 	return out, nil
 }
 
@@ -150,8 +159,8 @@ func (h *dirHandle) ReadDir(n int) ([]fs.DirEntry, error) {
 		return nil, err
 	}
 	out := make([]fs.DirEntry, 0, len(entries))
-	for _, nd := range entries {
-		out = append(out, fs.FileInfoToDirEntry(nd.meta().toStat()))
+	for _, s := range entries {
+		out = append(out, fs.FileInfoToDirEntry(s))
 	}
 	return out, nil
 }
@@ -164,8 +173,8 @@ func (h *dirHandle) Readdir(n int) ([]fs.FileInfo, error) {
 		return nil, err
 	}
 	out := make([]fs.FileInfo, 0, len(entries))
-	for _, nd := range entries {
-		out = append(out, nd.meta().toStat())
+	for _, s := range entries {
+		out = append(out, s)
 	}
 	return out, nil
 }
@@ -178,8 +187,8 @@ func (h *dirHandle) Readdirnames(n int) ([]string, error) {
 		return nil, err
 	}
 	out := make([]string, 0, len(entries))
-	for _, nd := range entries {
-		out = append(out, filepath.Base(nd.meta().name))
+	for _, s := range entries {
+		out = append(out, s.Name())
 	}
 	return out, nil
 }
-- 
2.43.0


From dbc5f8c9a3245464a32ce59c4cfefc8f85d69ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 21/65] fix: synthfs Rename detaches a directory moved below
 itself and ignores type mismatches

---
 vroot/synthfs/rename.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/vroot/synthfs/rename.go b/vroot/synthfs/rename.go
index cfc8774..2e82d38 100644
--- a/vroot/synthfs/rename.go
+++ b/vroot/synthfs/rename.go
@@ -3,6 +3,7 @@ package synthfs
 import (
 	"errors"
 	"io/fs"
+	"syscall"
 
 	"github.com/ngicks/go-fsys-helper/fsutil"
 	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
@@ -25,10 +26,30 @@ func (r *Root) Rename(oldname, newname string) error {
 	if err != nil {
 		return fsutil.WrapLinkErr("rename", oldname, newname, errors.Unwrap(err))
 	}
-	if existing := newParent.lookup(newBase); existing != nil {
+	existing := newParent.lookup(newBase)
+	if existing == target {
+		return nil
+	}
+	targetDir, targetIsDir := target.(*dir)
+	if targetIsDir {
+		// A directory can not become its own descendant.
+		for d := newParent; d != nil; d = d.parent {
+			if d == targetDir {
+				return fsutil.WrapLinkErr("rename", oldname, newname, syscall.EINVAL)
+			}
+		}
+	}
+	if existing != nil {
+		existingDir, existingIsDir := existing.(*dir)
+		switch {
+		case targetIsDir && !existingIsDir:
+			return fsutil.WrapLinkErr("rename", oldname, newname, syscall.ENOTDIR)
+		case !targetIsDir && existingIsDir:
+			return fsutil.WrapLinkErr("rename", oldname, newname, syscall.EISDIR)
+		}
 		// POSIX rename replaces; emulate that for files. Refuse to overwrite
 		// a non-empty directory to keep the operation safe under any platform.
-		if d, ok := existing.(*dir); ok && d.ordered.Len() > 0 {
+		if existingIsDir && existingDir.ordered.Len() > 0 {
 			return fsutil.WrapLinkErr("rename", oldname, newname, errdef.ENOTEMPTY)
 		}
 		newParent.removeEntry(newBase)
@@ -39,8 +60,8 @@ func (r *Root) Rename(oldname, newname string) error {
 
 	oldParent.removeEntry(oldBase)
 	target.meta().name = newBase
-	if d, ok := target.(*dir); ok {
-		d.parent = newParent
+	if targetIsDir {
+		targetDir.parent = newParent
 	}
 	newParent.addEntry(newBase, target)
 	return nil
-- 
2.43.0


From ca4296cd95cf9f1044db0be55c064e38dbe11dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 22/65] fix: synthfs RemoveAll fails when a parent of the path
 is missing

---
 vroot/synthfs/remove.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vroot/synthfs/remove.go b/vroot/synthfs/remove.go
index 328749f..6a7652d 100644
--- a/vroot/synthfs/remove.go
+++ b/vroot/synthfs/remove.go
@@ -1,6 +1,7 @@
 package synthfs
 
 import (
+	"errors"
 	"io/fs"
 	"syscall"
 
@@ -52,6 +53,9 @@ func (r *Root) removeAllLocked(name string) error {
 	}
 	parent, base, err := r.st.resolveParent(r.boundary, r.boundary, name, "RemoveAll")
 	if err != nil {
+		if errors.Is(err, fs.ErrNotExist) {
+			return nil
+		}
 		return err
 	}
 	target := parent.lookup(base)
-- 
2.43.0


From 5b85afc1d2430f05a1fe8a09d0562975bdeae50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 23/65] fix: osfs.Root ReadFile and WriteFile do not report
 escapes as ErrPathEscapes

---
 vroot/osfs/root.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vroot/osfs/root.go b/vroot/osfs/root.go
index b013a28..826677c 100644
--- a/vroot/osfs/root.go
+++ b/vroot/osfs/root.go
@@ -121,6 +121,12 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (*File, error)
 	return &File{f}, nil
 }
 
+// ReadFile shadows the promoted method so that it translates errors too.
+func (r *Root) ReadFile(name string) ([]byte, error) {
+	b, err := r.Root.ReadFile(name)
+	return b, translateEscape(err)
+}
+
 func (r *Root) ReadLink(name string) (string, error) {
 	target, err := r.Readlink(name)
 	return target, translateEscape(err)
@@ -154,3 +160,8 @@ func (r *Root) OpenRoot(name string) (*Root, error) {
 	}
 	return &Root{rr}, nil
 }
+
+// WriteFile shadows the promoted method so that it translates errors too.
+func (r *Root) WriteFile(name string, data []byte, perm fs.FileMode) error {
+	return translateEscape(r.Root.WriteFile(name, data, perm))
+}
-- 
2.43.0


From 2c90da558d0cc0e2ecf062e871ba6cfc43521af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 24/65] fix: WalkDir drops the remaining entries when the Lstat
 of one fails

---
 vroot/walk.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vroot/walk.go b/vroot/walk.go
index b58b7ce..3e0112a 100644
--- a/vroot/walk.go
+++ b/vroot/walk.go
@@ -181,10 +181,11 @@ func walkDir_[F File, Fsys Fs[F]](
 		info, err := fsys.Lstat(childPath)
 		if err != nil {
 			err = fn(childPath, childRealPath, nil, err)
-			if err == SkipDir && info != nil && info.IsDir() {
-				err = nil
+			if err != nil && err != SkipDir {
+				return err
 			}
-			return err
+			// The walk goes on with the remaining siblings, as filepath.Walk does.
+			continue
 		}
 		err = walkDir_(fsys, childPath, childRealPath, info, state, opt, fn)
 		if err != nil {
-- 
2.43.0


From 898affac27dedddd2fc09080554d807a838fcb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 25/65] fix: Readdir of an expanded fs.File returns nil entries
 for files that vanished

---
 vroot/iofs_from.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/vroot/iofs_from.go b/vroot/iofs_from.go
index 97bd22b..bf6607a 100644
--- a/vroot/iofs_from.go
+++ b/vroot/iofs_from.go
@@ -211,23 +211,32 @@ func (f *expandedFile) ReadDir(n int) ([]fs.DirEntry, error) {
 }
 
 func (f *expandedFile) Readdir(n int) ([]fs.FileInfo, error) {
-	entries, err := f.ReadDir(n)
-	if err != nil {
-		return nil, err
-	}
-
-	infos := make([]fs.FileInfo, len(entries))
-	for i, entry := range entries {
-		info, err := entry.Info()
-		if err != nil && !errors.Is(err, fs.ErrNotExist) {
-			// Info ≈ Lstat; a concurrent removal between ReadDir and Info is
-			// tolerated by suppressing fs.ErrNotExist, mirroring how
-			// os.(*File).Readdir behaves with disappearing entries.
+	for {
+		entries, err := f.ReadDir(n)
+		if err != nil {
 			return nil, err
 		}
-		infos[i] = info
+
+		infos := make([]fs.FileInfo, 0, len(entries))
+		for _, entry := range entries {
+			info, err := entry.Info()
+			if errors.Is(err, fs.ErrNotExist) {
+				// Info ≈ Lstat; an entry removed between ReadDir and Info is
+				// left out, mirroring how os.(*File).Readdir behaves with
+				// disappearing entries.
+				continue
+			}
+			if err != nil {
+				return nil, err
+			}
+			infos = append(infos, info)
+		}
+		if n <= 0 || len(infos) > 0 || len(entries) == 0 {
+			return infos, nil
+		}
+		// Every entry of this batch is gone; an empty slice with a nil error
+		// would break the Readdir contract for n > 0.
 	}
-	return infos, nil
 }
 
 func (f *expandedFile) Readdirnames(n int) (names []string, err error) {
-- 
2.43.0


From 425e2467839c62099a09b0abe0d211673f385975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 26/65] fix: WalkDir misses a loop back to an uncleaned start
 path

---
 vroot/walk.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vroot/walk.go b/vroot/walk.go
index 3e0112a..597e7ae 100644
--- a/vroot/walk.go
+++ b/vroot/walk.go
@@ -102,7 +102,8 @@ func walkDir[F File, Fsys Fs[F]](fsys Fsys, root string, opt *WalkOption, fn Wal
 	if err != nil {
 		err = fn(root, root, nil, err)
 	} else {
-		err = walkDir_(fsys, root, root, info, state, opt, fn)
+		// Clean, so that a link leading back to root is recognised as a loop.
+		err = walkDir_(fsys, root, filepath.Clean(root), info, state, opt, fn)
 	}
 	if err == SkipDir || err == SkipAll {
 		return nil
-- 
2.43.0


From f5e89a65f1cb7194c242386027abff5f8c370b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 27/65] fix: overlayfs cannot list the root of a plain osfs
 layer

---
 vroot-adapter/overlayfs/datasource.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vroot-adapter/overlayfs/datasource.go b/vroot-adapter/overlayfs/datasource.go
index 606fac3..f0b9259 100644
--- a/vroot-adapter/overlayfs/datasource.go
+++ b/vroot-adapter/overlayfs/datasource.go
@@ -126,7 +126,8 @@ func (d *DataSource) Fsys() vroot.Fs[vroot.File] {
 // is handed — clean, slash-separated, relative to the content root — and the
 // answer is spelled with the separator the backend expects. A canonical layer
 // keeps its content under "merged/"; a plain layer's root is its content root,
-// so the name comes back as it went in.
+// so the name comes back as it went in. The content root itself, "", comes back
+// as "." there: not every fs takes an empty path.
 //
 // Content and staging are addressed as two paths in one fs rather than as two
 // sub-Fs views, because copy-up publishes by renaming a staged file onto its
@@ -134,6 +135,9 @@ func (d *DataSource) Fsys() vroot.Fs[vroot.File] {
 func (d *DataSource) ContentPath(name string) string {
 	name = filepath.FromSlash(name)
 	if !d.canonical {
+		if name == "" {
+			return "."
+		}
 		return name
 	}
 	return filepath.Join(dirMerged, name)
-- 
2.43.0


From dd33cd54c732ced868ae0271b1a5185390f1b1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 28/65] fix: overlayfs looks names up through a lower layer's
 own symlinks

---
 vroot-adapter/overlayfs/merged.go | 80 ++++++++++++++-----------------
 vroot-adapter/overlayfs/rename.go |  7 +++
 2 files changed, 43 insertions(+), 44 deletions(-)

diff --git a/vroot-adapter/overlayfs/merged.go b/vroot-adapter/overlayfs/merged.go
index 9715b85..022e57c 100644
--- a/vroot-adapter/overlayfs/merged.go
+++ b/vroot-adapter/overlayfs/merged.go
@@ -48,24 +48,22 @@ func (s *overlayState) lookupFrom(name string, from int) (lookupResult, error) {
 	name = cleanName(name)
 	cut := s.cutFrom(name, from)
 	for i := from; i <= cut; i++ {
+		blocked, err := s.blockedIn(i, name)
+		if err != nil {
+			return lookupResult{}, err
+		}
+		if blocked {
+			// Not this layer's business alone: a non-directory on the way to name
+			// fills a path every deeper layer would have to be reached through, so
+			// the search ends here instead of stepping around it.
+			return lookupResult{}, s.blockedErr(name)
+		}
 		path := s.layerPath(i, name)
 		info, err := s.layers[i].fsys.Lstat(path)
 		switch {
 		case err == nil:
 			return lookupResult{layer: i, src: s.layers[i], path: path, info: info}, nil
-		case errors.Is(err, syscall.ENOTDIR):
-			blocked, probeErr := s.blockedIn(i, name)
-			if probeErr != nil {
-				return lookupResult{}, probeErr
-			}
-			if blocked {
-				// Not this layer's business alone: a non-directory on the way to name
-				// fills a path every deeper layer would have to be reached through, so
-				// the search ends here instead of stepping around it.
-				return lookupResult{}, s.blockedErr(name)
-			}
-			continue
-		case errors.Is(err, fs.ErrNotExist):
+		case errors.Is(err, fs.ErrNotExist), errors.Is(err, syscall.ENOTDIR):
 			continue
 		default:
 			// Anything else is the backend failing rather than answering, and a
@@ -77,34 +75,30 @@ func (s *overlayState) lookupFrom(name string, from int) (lookupResult, error) {
 }
 
 // blockedIn reports whether layer i holds a non-directory where name would have
-// to be reached through. It is the question an Lstat error matching
-// [syscall.ENOTDIR] raises rather than settles.
+// to be reached through.
 //
-// Only unix answers it in the errno. Windows spells syscall.ENOTDIR as
-// ERROR_PATH_NOT_FOUND, which it returns both for a component before the leaf
-// that is not a directory and for one that is not there at all, and which
-// matches [fs.ErrNotExist] besides — one value for the two answers the search
-// has to tell apart, since a layer that merely lacks the directory leaves the
-// layers below it to be read as usual. So the layer is asked directly and the
-// nearest ancestor it does show decides.
+// The layer is asked about each ancestor instead of about name alone, for what
+// name's own Lstat does not tell. A symlink among them the layer would follow,
+// into a tree that is not name's parent in the merged view. And windows spells
+// syscall.ENOTDIR as ERROR_PATH_NOT_FOUND, which it returns both for a component
+// before the leaf that is not a directory and for one that is not there at all —
+// one value for two answers the search has to tell apart, since a layer that
+// merely lacks the directory leaves the layers below it to be read as usual.
 func (s *overlayState) blockedIn(i int, name string) (bool, error) {
-	for n := parentName(name); ; n = parentName(n) {
+	for _, n := range ancestry(parentName(name)) {
 		info, err := s.layers[i].fsys.Lstat(s.layerPath(i, n))
 		switch {
 		case err == nil:
-			return !info.IsDir(), nil
-		case errors.Is(err, syscall.ENOTDIR):
-			// Whatever stands in the way is further up still; asked before
-			// fs.ErrNotExist for the same reason the caller asks in this order.
-		case errors.Is(err, fs.ErrNotExist):
+			if !info.IsDir() {
+				return true, nil
+			}
+		case errors.Is(err, fs.ErrNotExist), errors.Is(err, syscall.ENOTDIR):
 			return false, nil
 		default:
 			return false, err
 		}
-		if n == "" {
-			return false, nil
-		}
 	}
+	return false, nil
 }
 
 // blockedErr names what a non-directory component left behind: the merged view
@@ -144,24 +138,22 @@ func (s *overlayState) readDir(name string) ([]fs.DirEntry, error) {
 	seen := make(map[string]struct{})
 	cut := s.childCut(name)
 	for i := res.layer; i <= cut; i++ {
+		// A non-directory at name, or on the way to it, fills the path the layers
+		// below would be merged in through: nothing under them is part of this
+		// directory any more.
+		blocked, err := s.blockedIn(i, name)
+		if err != nil {
+			return nil, err
+		}
+		if blocked {
+			return sortEntries(entries), nil
+		}
 		path := s.layerPath(i, name)
 		info, err := s.layers[i].fsys.Lstat(path)
 		switch {
-		// A non-directory at name, or on the way to it in the case after this
-		// one, fills the path the layers below would be merged in through:
-		// nothing under them is part of this directory any more.
 		case err == nil && !info.IsDir():
 			return sortEntries(entries), nil
-		case errors.Is(err, syscall.ENOTDIR):
-			blocked, probeErr := s.blockedIn(i, name)
-			if probeErr != nil {
-				return nil, probeErr
-			}
-			if blocked {
-				return sortEntries(entries), nil
-			}
-			continue
-		case errors.Is(err, fs.ErrNotExist):
+		case errors.Is(err, fs.ErrNotExist), errors.Is(err, syscall.ENOTDIR):
 			continue
 		case err != nil:
 			return nil, err
diff --git a/vroot-adapter/overlayfs/rename.go b/vroot-adapter/overlayfs/rename.go
index 2e37518..d49a990 100644
--- a/vroot-adapter/overlayfs/rename.go
+++ b/vroot-adapter/overlayfs/rename.go
@@ -126,6 +126,13 @@ func (f *Fs) rename(oldname string, newname string) error {
 func (f *Fs) renameDirCheck(full string) error {
 	cut := f.state.childCut(full)
 	for i := 1; i <= cut; i++ {
+		blocked, err := f.state.blockedIn(i, full)
+		if err != nil {
+			return err
+		}
+		if blocked {
+			return nil
+		}
 		switch _, err := f.state.layers[i].fsys.Lstat(f.state.layerPath(i, full)); {
 		case err == nil:
 			return errCrossDevice
-- 
2.43.0


From 4f92990dc3094da8b898e5b8ec09db8e92ed3c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 29/65] fix: overlayfs creates through dangling symlinks in the
 top instead of the merged view

---
 vroot-adapter/overlayfs/open.go    | 22 +++++++++--------
 vroot-adapter/overlayfs/resolve.go | 38 ++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/vroot-adapter/overlayfs/open.go b/vroot-adapter/overlayfs/open.go
index 39220df..773976f 100644
--- a/vroot-adapter/overlayfs/open.go
+++ b/vroot-adapter/overlayfs/open.go
@@ -23,17 +23,19 @@ func (f *Fs) openWrite(name string, flag int, perm fs.FileMode) (vroot.File, err
 	defer f.state.mu.Unlock()
 
 	creating := flag&os.O_CREATE != 0
-	full, err := f.resolve(name, false)
-	if err != nil {
-		// A create names what may not be there yet, so the walk only has to reach
-		// the parent and the final component is taken as written.
-		if !creating || !errors.Is(err, fs.ErrNotExist) {
-			return nil, fsutil.WrapPathErr("open", name, err)
-		}
+	var full string
+	var err error
+	switch {
+	case creating && flag&os.O_EXCL != 0:
+		// The name itself must not be there: a symlink is, wherever it leads.
 		full, err = f.resolve(name, true)
-		if err != nil {
-			return nil, fsutil.WrapPathErr("open", name, err)
-		}
+	case creating:
+		full, err = f.resolveCreate(name)
+	default:
+		full, err = f.resolve(name, false)
+	}
+	if err != nil {
+		return nil, fsutil.WrapPathErr("open", name, err)
 	}
 
 	masked := false
diff --git a/vroot-adapter/overlayfs/resolve.go b/vroot-adapter/overlayfs/resolve.go
index fd5bf55..7b4de16 100644
--- a/vroot-adapter/overlayfs/resolve.go
+++ b/vroot-adapter/overlayfs/resolve.go
@@ -1,6 +1,7 @@
 package overlayfs
 
 import (
+	"errors"
 	"io/fs"
 	"path/filepath"
 
@@ -76,6 +77,43 @@ func (f *Fs) resolve(name string, skipLast bool) (string, error) {
 	return f.name(resolved)
 }
 
+// resolveCreate is [Fs.resolve] for a create, which names what may not be there
+// yet: the final component may be missing, and so may what a symlink it is leads
+// to. The top could not be left to follow such a link, holding neither the rest
+// of the merged view nor its masking.
+func (f *Fs) resolveCreate(name string) (string, error) {
+	r := &createResolver{resolver: resolver{f}}
+	resolved, err := fsutil.ResolvePath(r, name, false)
+	if err != nil {
+		if r.missing {
+			return "", fs.ErrNotExist
+		}
+		return "", err
+	}
+	return f.name(resolved)
+}
+
+// createResolver is a [resolver] to which what is missing looks like a file, so
+// that the walk ends at it and fails if it has to go on from there.
+type createResolver struct {
+	resolver
+	missing bool
+}
+
+func (r *createResolver) Lstat(name string) (fs.FileInfo, error) {
+	info, err := r.resolver.Lstat(name)
+	if errors.Is(err, fs.ErrNotExist) {
+		r.missing = true
+		return missingInfo{}, nil
+	}
+	return info, err
+}
+
+type missingInfo struct{ fs.FileInfo }
+
+func (missingInfo) Mode() fs.FileMode { return 0 }
+func (missingInfo) IsDir() bool       { return false }
+
 // locate is the step every read shares: resolve name over the merged view, then
 // look up where it lands. It reports the resolved name as well — the spelling
 // the masking state, and with it the open-handle count, is keyed by. The caller
-- 
2.43.0


From abc98f3cfeedb9d280fb7e2632f2fc9e4f9d485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 30/65] fix: overlayfs refuses to rename a directory standing
 over a lower file

---
 vroot-adapter/overlayfs/rename.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vroot-adapter/overlayfs/rename.go b/vroot-adapter/overlayfs/rename.go
index d49a990..3ea378a 100644
--- a/vroot-adapter/overlayfs/rename.go
+++ b/vroot-adapter/overlayfs/rename.go
@@ -133,7 +133,10 @@ func (f *Fs) renameDirCheck(full string) error {
 		if blocked {
 			return nil
 		}
-		switch _, err := f.state.layers[i].fsys.Lstat(f.state.layerPath(i, full)); {
+		switch info, err := f.state.layers[i].fsys.Lstat(f.state.layerPath(i, full)); {
+		case err == nil && !info.IsDir():
+			// It contributes nothing, nor does what it keeps out below it.
+			return nil
 		case err == nil:
 			return errCrossDevice
 		case errors.Is(err, fs.ErrNotExist), errors.Is(err, syscall.ENOTDIR):
-- 
2.43.0


From 11970f7b6fccb9b089edd7d843ce0690a44e9cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:05 +0000
Subject: [PATCH 31/65] fix: overlayfs copies a file up with its parents'
 attributes taken from the wrong layer

---
 vroot-adapter/overlayfs/write.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vroot-adapter/overlayfs/write.go b/vroot-adapter/overlayfs/write.go
index 64b26ce..e3d4a15 100644
--- a/vroot-adapter/overlayfs/write.go
+++ b/vroot-adapter/overlayfs/write.go
@@ -58,6 +58,15 @@ func (f *Fs) copyUp(name string) error {
 	case res.layer == 0:
 		return nil
 	}
+	if res.info.Mode().Type()&^(fs.ModeDir|fs.ModeSymlink) == 0 {
+		// The parents first, each from the layer it is read from: the policy would
+		// give them the attributes they have in name's layer, which may not be
+		// theirs in the merged view. A type the policy refuses leaves the top as it
+		// is, parents included.
+		if err := f.copyUp(parentName(name)); err != nil {
+			return err
+		}
+	}
 	from, err := res.src.contentView()
 	if err != nil {
 		return err
-- 
2.43.0


From 7d562cfa9dd172c1defe19edaf689060b0c4cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 32/65] fix: overlayfs MkdirAll refuses a symlink to a
 directory

---
 vroot-adapter/overlayfs/mkdir.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vroot-adapter/overlayfs/mkdir.go b/vroot-adapter/overlayfs/mkdir.go
index 219a6af..f6217fb 100644
--- a/vroot-adapter/overlayfs/mkdir.go
+++ b/vroot-adapter/overlayfs/mkdir.go
@@ -110,7 +110,7 @@ func (f *Fs) mkdirAllName(name string) (string, error) {
 		return "", vroot.ErrPathEscapes
 	}
 	for head, rest := cleaned, ""; ; {
-		resolved, err := f.resolve(filepath.FromSlash(head), true)
+		resolved, err := f.resolve(filepath.FromSlash(head), false)
 		if err == nil {
 			return childName(resolved, rest), nil
 		}
@@ -119,7 +119,7 @@ func (f *Fs) mkdirAllName(name string) (string, error) {
 		}
 		i := strings.LastIndexByte(head, '/')
 		if i < 0 {
-			return "", err
+			return childName(f.base, childName(head, rest)), nil
 		}
 		rest = childName(head[i+1:], rest)
 		head = head[:i]
-- 
2.43.0


From 899dafc513767ba41f895c4906b761a5970d7222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:31 +0000
Subject: [PATCH 33/65] fix: overlayfs rename cut short brings the old name's
 lower entry back

---
 vroot-adapter/overlayfs/rename.go | 46 +++++++++++++++++++++----------
 vroot-adapter/overlayfs/state.go  | 28 +++++++++++++------
 2 files changed, 50 insertions(+), 24 deletions(-)

diff --git a/vroot-adapter/overlayfs/rename.go b/vroot-adapter/overlayfs/rename.go
index 3ea378a..dd1d339 100644
--- a/vroot-adapter/overlayfs/rename.go
+++ b/vroot-adapter/overlayfs/rename.go
@@ -77,19 +77,9 @@ func (f *Fs) rename(oldname string, newname string) error {
 		return err
 	}
 
-	if err := f.top().fsys.Rename(f.topPath(oldFull), f.topPath(newFull)); err != nil {
-		return err
-	}
-
-	// Whatever stood at the new name is gone, and the marks describing it go with
-	// it — the whiteout a removal there left included, which is what lets a name
-	// be renamed onto one that was deleted.
-	if err := f.state.clearSubtree(newFull); err != nil {
-		return err
-	}
-	if err := f.state.renameSubtree(oldFull, newFull); err != nil {
-		return err
-	}
+	// Masking is recorded before the move wherever the move depends on it: what is
+	// cut short in between then leaves names masked that the top still holds, which
+	// shows nothing different, instead of names the layers below resurface at.
 	if oldRes.info.IsDir() {
 		// The reference's create_missing_whiteouts, in the store's own terms: it
 		// walks the layers below at the destination and drops a whiteout file
@@ -103,13 +93,39 @@ func (f *Fs) rename(oldname string, newname string) error {
 		if err := f.state.setOpaque(newFull); err != nil {
 			return err
 		}
+		if err := f.state.clearUnder(newFull); err != nil {
+			return err
+		}
+		if err := f.state.renameSubtree(oldFull, newFull); err != nil {
+			return err
+		}
 	}
 	if maskOld {
 		// setWhiteout drops the old name's own opaque mark and everything recorded
 		// under it, which renameSubtree has already moved out of the way. A
 		// whiteout at the new name is not needed however the layers below stand:
-		// the top now holds content there, and content in the top shadows them.
-		return f.state.setWhiteout(oldFull)
+		// the top holds content there, and content in the top shadows them.
+		if err := f.state.setWhiteout(oldFull); err != nil {
+			return err
+		}
+	}
+
+	if err := f.top().fsys.Rename(f.topPath(oldFull), f.topPath(newFull)); err != nil {
+		return err
+	}
+
+	// Whatever stood at the new name is gone, and the marks describing it go with
+	// it — the whiteout a removal there left included, which is what lets a name
+	// be renamed onto one that was deleted.
+	if oldRes.info.IsDir() {
+		if err := f.unmask(newFull); err != nil {
+			return err
+		}
+	} else if err := f.state.clearSubtree(newFull); err != nil {
+		return err
+	}
+	if maskOld {
+		return nil
 	}
 	return f.state.clearSubtree(oldFull)
 }
diff --git a/vroot-adapter/overlayfs/state.go b/vroot-adapter/overlayfs/state.go
index badecbd..e78ea0d 100644
--- a/vroot-adapter/overlayfs/state.go
+++ b/vroot-adapter/overlayfs/state.go
@@ -190,20 +190,30 @@ func (s *overlayState) maskedUnder(dir string) (whiteouts []string, opaques []st
 // [overlayState.setWhiteout] does the same pruning in one store call; this is
 // the branch where no whiteout is recorded and so nothing prunes for us.
 func (s *overlayState) clearSubtree(name string) error {
-	name = cleanName(name)
-	whiteouts, opaques := s.maskedUnder(name)
-	for _, n := range append(whiteouts, name) {
-		if _, ok := s.masks[0].whiteout[n]; !ok {
-			continue
+	if err := s.clearUnder(name); err != nil {
+		return err
+	}
+	whiteout, opaque := s.marks(0, name)
+	if whiteout {
+		if err := s.clearWhiteout(name); err != nil {
+			return err
 		}
+	}
+	if opaque {
+		return s.clearOpaque(name)
+	}
+	return nil
+}
+
+// clearUnder is [overlayState.clearSubtree] leaving the marks on name itself.
+func (s *overlayState) clearUnder(name string) error {
+	whiteouts, opaques := s.maskedUnder(cleanName(name))
+	for _, n := range whiteouts {
 		if err := s.clearWhiteout(n); err != nil {
 			return err
 		}
 	}
-	for _, n := range append(opaques, name) {
-		if _, ok := s.masks[0].opaque[n]; !ok {
-			continue
-		}
+	for _, n := range opaques {
 		if err := s.clearOpaque(n); err != nil {
 			return err
 		}
-- 
2.43.0


From 43b3ea34cca2bc425a11ec1143c63dd38c2c083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 34/65] fix: synthfs handles go on working after Close

---
 vroot/synthfs/handle.go     |  9 +++++++++
 vroot/synthfs/handle_dir.go | 26 +++++++++++++++++++++++++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/vroot/synthfs/handle.go b/vroot/synthfs/handle.go
index a5a2e68..a12d32a 100644
--- a/vroot/synthfs/handle.go
+++ b/vroot/synthfs/handle.go
@@ -138,6 +138,9 @@ func (h *fileHandle) Sync() error {
 }
 
 func (h *fileHandle) Stat() (fs.FileInfo, error) {
+	if h.isClosed() {
+		return nil, fsutil.WrapPathErr("stat", h.name, fs.ErrClosed)
+	}
 	h.st.mu.RLock()
 	defer h.st.mu.RUnlock()
 	s := h.node.toStat()
@@ -150,6 +153,9 @@ func (h *fileHandle) Stat() (fs.FileInfo, error) {
 }
 
 func (h *fileHandle) Chmod(mode fs.FileMode) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chmod", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	chmodApply(&h.st.opt, &h.node.metadata, mode)
@@ -157,6 +163,9 @@ func (h *fileHandle) Chmod(mode fs.FileMode) error {
 }
 
 func (h *fileHandle) Chown(uid, gid int) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chown", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	h.node.uid = uid
diff --git a/vroot/synthfs/handle_dir.go b/vroot/synthfs/handle_dir.go
index eeb7fc8..81c2b26 100644
--- a/vroot/synthfs/handle_dir.go
+++ b/vroot/synthfs/handle_dir.go
@@ -32,7 +32,19 @@ var _ vroot.File = (*dirHandle)(nil)
 
 func (h *dirHandle) Name() string { return h.name }
 func (h *dirHandle) Fd() uintptr  { return ^uintptr(0) }
-func (h *dirHandle) Sync() error  { return nil }
+
+func (h *dirHandle) isClosed() bool {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	return h.closed
+}
+
+func (h *dirHandle) Sync() error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("sync", h.name, fs.ErrClosed)
+	}
+	return nil
+}
 
 func (h *dirHandle) Close() error {
 	h.mu.Lock()
@@ -50,6 +62,9 @@ func (h *dirHandle) Close() error {
 }
 
 func (h *dirHandle) Stat() (fs.FileInfo, error) {
+	if h.isClosed() {
+		return nil, fsutil.WrapPathErr("stat", h.name, fs.ErrClosed)
+	}
 	h.st.mu.RLock()
 	defer h.st.mu.RUnlock()
 	return h.node.toStat(), nil
@@ -84,6 +99,9 @@ func (h *dirHandle) Truncate(int64) error {
 func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 	h.mu.Lock()
 	defer h.mu.Unlock()
+	if h.closed {
+		return 0, fsutil.WrapPathErr("seek", h.name, fs.ErrClosed)
+	}
 	switch whence {
 	case io.SeekStart:
 		if offset < 0 {
@@ -194,6 +212,9 @@ func (h *dirHandle) Readdirnames(n int) ([]string, error) {
 }
 
 func (h *dirHandle) Chmod(mode fs.FileMode) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chmod", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	chmodApply(&h.st.opt, &h.node.metadata, mode)
@@ -201,6 +222,9 @@ func (h *dirHandle) Chmod(mode fs.FileMode) error {
 }
 
 func (h *dirHandle) Chown(uid, gid int) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chown", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	h.node.uid = uid
-- 
2.43.0


From 40a4556767e31762274dda74fa03fc7049ce5619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 35/65] fix: overlayfs handles lose track of names that are
 renamed, replaced or removed

---
 vroot-adapter/overlayfs/file.go   | 100 +++++++++++++++++++++++++-----
 vroot-adapter/overlayfs/fs.go     |  14 ++---
 vroot-adapter/overlayfs/open.go   |   2 +-
 vroot-adapter/overlayfs/remove.go |   1 +
 vroot-adapter/overlayfs/rename.go |   1 +
 vroot-adapter/overlayfs/write.go  |  12 +++-
 6 files changed, 103 insertions(+), 27 deletions(-)

diff --git a/vroot-adapter/overlayfs/file.go b/vroot-adapter/overlayfs/file.go
index f794fe0..6fc3b3e 100644
--- a/vroot-adapter/overlayfs/file.go
+++ b/vroot-adapter/overlayfs/file.go
@@ -18,6 +18,15 @@ var (
 	_ vroot.File = (*mergedDir)(nil)
 )
 
+// openName is one merged-view name handles are out on. It follows the entry it
+// was opened as: name is changed under a rename and gone once the entry is
+// removed or replaced, both under the state's write lock.
+type openName struct {
+	name  string
+	gone  bool
+	count int
+}
+
 // handleTracker counts the handles the overlay has out on each merged-view name,
 // which is what [Option.DisableOpenFileRemoval] refuses a removal by.
 //
@@ -27,35 +36,85 @@ var (
 // lock sees either an open that finished or one that has not started.
 type handleTracker struct {
 	mu   sync.Mutex
-	open map[string]int
+	open map[string]*openName
 }
 
 func newHandleTracker() *handleTracker {
-	return &handleTracker{open: make(map[string]int)}
+	return &handleTracker{open: make(map[string]*openName)}
 }
 
-func (t *handleTracker) acquire(name string) {
+func (t *handleTracker) acquire(name string) *openName {
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	t.open[name]++
+	o := t.open[name]
+	if o == nil {
+		o = &openName{name: name}
+		t.open[name] = o
+	}
+	o.count++
+	return o
 }
 
-// release drops one handle on name. The entry goes with the last of them so the
+// release drops one handle on o. The entry goes with the last of them so the
 // map holds only names something is actually open on.
-func (t *handleTracker) release(name string) {
+func (t *handleTracker) release(o *openName) {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	if o.count--; o.count == 0 && !o.gone {
+		delete(t.open, o.name)
+	}
+}
+
+// where reports the name o is at now, and whether it still is anywhere.
+func (t *handleTracker) where(o *openName) (name string, ok bool) {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	return o.name, !o.gone
+}
+
+// rename moves the handles out on oldname and on everything under it to newname.
+// Those out on what newname replaces are left on an entry without a name.
+func (t *handleTracker) rename(oldname string, newname string) {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	t.drop(newname)
+	var moved []*openName
+	for name, o := range t.open {
+		if name == oldname || strings.HasPrefix(name, oldname+"/") {
+			delete(t.open, name)
+			o.name = newname + name[len(oldname):]
+			moved = append(moved, o)
+		}
+	}
+	for _, o := range moved {
+		t.open[o.name] = o
+	}
+}
+
+// remove leaves the handles out on name and on everything under it on entries
+// without a name.
+func (t *handleTracker) remove(name string) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	if n := t.open[name] - 1; n > 0 {
-		t.open[name] = n
-	} else {
-		delete(t.open, name)
+	t.drop(name)
+}
+
+func (t *handleTracker) drop(name string) {
+	for open, o := range t.open {
+		if open == name || strings.HasPrefix(open, name+"/") {
+			delete(t.open, open)
+			o.gone = true
+		}
 	}
 }
 
 func (t *handleTracker) count(name string) int {
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	return t.open[name]
+	if o := t.open[name]; o != nil {
+		return o.count
+	}
+	return 0
 }
 
 // countSubtree counts the handles out on name and on everything under it, which
@@ -70,9 +129,9 @@ func (t *handleTracker) countSubtree(name string) int {
 	t.mu.Lock()
 	defer t.mu.Unlock()
 	var n int
-	for open, count := range t.open {
+	for open, o := range t.open {
 		if open == name || strings.HasPrefix(open, prefix) {
-			n += count
+			n += o.count
 		}
 	}
 	return n
@@ -83,7 +142,7 @@ func (t *handleTracker) countSubtree(name string) int {
 type trackedFile struct {
 	vroot.File
 	name    string
-	key     string
+	key     *openName
 	handles *handleTracker
 	once    sync.Once
 }
@@ -115,7 +174,7 @@ type mergedDir struct {
 	// name is the caller's own spelling, key the merged-view name the listing is
 	// read at.
 	name string
-	key  string
+	key  *openName
 
 	mu      sync.Mutex
 	inner   vroot.File
@@ -125,7 +184,7 @@ type mergedDir struct {
 	loaded  bool
 }
 
-func newMergedDir(fsys *Fs, name string, key string, inner vroot.File) *mergedDir {
+func newMergedDir(fsys *Fs, name string, key *openName, inner vroot.File) *mergedDir {
 	return &mergedDir{fsys: fsys, inner: inner, name: name, key: key}
 }
 
@@ -170,7 +229,11 @@ func (d *mergedDir) load() error {
 	}
 	d.fsys.state.mu.RLock()
 	defer d.fsys.state.mu.RUnlock()
-	entries, err := d.fsys.state.readDir(d.key)
+	key, ok := d.fsys.handles.where(d.key)
+	if !ok {
+		return fs.ErrNotExist
+	}
+	entries, err := d.fsys.state.readDir(key)
 	if err != nil {
 		return err
 	}
@@ -249,6 +312,9 @@ func (d *mergedDir) Readdirnames(n int) ([]string, error) {
 func (d *mergedDir) Seek(offset int64, whence int) (int64, error) {
 	d.mu.Lock()
 	defer d.mu.Unlock()
+	if d.closed {
+		return 0, fsutil.WrapPathErr("seek", d.name, fs.ErrClosed)
+	}
 	switch whence {
 	case io.SeekStart:
 		if offset != 0 {
diff --git a/vroot-adapter/overlayfs/fs.go b/vroot-adapter/overlayfs/fs.go
index 2104b02..16299ce 100644
--- a/vroot-adapter/overlayfs/fs.go
+++ b/vroot-adapter/overlayfs/fs.go
@@ -216,7 +216,8 @@ func (f *Fs) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, erro
 	}
 
 	if res.info.IsDir() {
-		return f.track(name, key, newMergedDir(f, name, key, inner)), nil
+		o := f.handles.acquire(key)
+		return f.track(name, o, newMergedDir(f, name, o, inner)), nil
 	}
 	if res.layer > 0 {
 		// A lower is read as it stands and never written to: the handle would be
@@ -225,7 +226,7 @@ func (f *Fs) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, erro
 		// handed, so that the open it wraps can be passed straight in.
 		inner, _ = vroot.NewReadOnlyFile(inner, nil)
 	}
-	return f.track(name, key, inner), nil
+	return f.track(name, f.handles.acquire(key), inner), nil
 }
 
 // OpenRoot returns the overlay confined to the directory name, sharing the
@@ -253,11 +254,10 @@ func (f *Fs) OpenRoot(name string) (*Fs, error) {
 	return &sub, nil
 }
 
-// track counts the handle out and hands back one that counts it back in when it
-// is closed. name is the caller's own spelling, key the merged-view name the
-// count is kept per.
-func (f *Fs) track(name string, key string, file vroot.File) vroot.File {
-	f.handles.acquire(key)
+// track hands back a handle that counts itself back in when it is closed. name is
+// the caller's own spelling, key the acquired merged-view name the count is kept
+// per.
+func (f *Fs) track(name string, key *openName, file vroot.File) vroot.File {
 	return &trackedFile{File: file, name: name, key: key, handles: f.handles}
 }
 
diff --git a/vroot-adapter/overlayfs/open.go b/vroot-adapter/overlayfs/open.go
index 773976f..984a3c0 100644
--- a/vroot-adapter/overlayfs/open.go
+++ b/vroot-adapter/overlayfs/open.go
@@ -77,5 +77,5 @@ func (f *Fs) openWrite(name string, flag int, perm fs.FileMode) (vroot.File, err
 			return nil, fsutil.WrapPathErr("open", name, err)
 		}
 	}
-	return f.track(name, full, inner), nil
+	return f.track(name, f.handles.acquire(full), inner), nil
 }
diff --git a/vroot-adapter/overlayfs/remove.go b/vroot-adapter/overlayfs/remove.go
index 0d6d8f9..985ab92 100644
--- a/vroot-adapter/overlayfs/remove.go
+++ b/vroot-adapter/overlayfs/remove.go
@@ -139,5 +139,6 @@ func (f *Fs) unlink(full string, remove func(path string) error) error {
 	if err := remove(f.topPath(full)); err != nil && !errors.Is(err, fs.ErrNotExist) {
 		return err
 	}
+	f.handles.remove(full)
 	return nil
 }
diff --git a/vroot-adapter/overlayfs/rename.go b/vroot-adapter/overlayfs/rename.go
index dd1d339..1733ed8 100644
--- a/vroot-adapter/overlayfs/rename.go
+++ b/vroot-adapter/overlayfs/rename.go
@@ -113,6 +113,7 @@ func (f *Fs) rename(oldname string, newname string) error {
 	if err := f.top().fsys.Rename(f.topPath(oldFull), f.topPath(newFull)); err != nil {
 		return err
 	}
+	f.handles.rename(oldFull, newFull)
 
 	// Whatever stood at the new name is gone, and the marks describing it go with
 	// it — the whiteout a removal there left included, which is what lets a name
diff --git a/vroot-adapter/overlayfs/write.go b/vroot-adapter/overlayfs/write.go
index e3d4a15..f37d02f 100644
--- a/vroot-adapter/overlayfs/write.go
+++ b/vroot-adapter/overlayfs/write.go
@@ -127,20 +127,28 @@ func (f *Fs) mutateTop(
 // mutateResolved is [Fs.mutateTop] for a name already resolved over the merged
 // view, which is what a handle the overlay handed out holds.
 func (f *Fs) mutateResolved(
-	full string,
+	key *openName,
 	op func(fsys vroot.Fs[vroot.File], path string) error,
 ) error {
 	f.state.mu.Lock()
 	defer f.state.mu.Unlock()
+	full, ok := f.handles.where(key)
+	if !ok {
+		return fs.ErrNotExist
+	}
 	return f.mutateLocked(full, op)
 }
 
 // openTopDir opens the top's copy of an already-resolved directory name, which
 // is what a handle onto that directory is re-pointed at once a copy-up has
 // brought it into the top.
-func (f *Fs) openTopDir(full string) (vroot.File, error) {
+func (f *Fs) openTopDir(key *openName) (vroot.File, error) {
 	f.state.mu.RLock()
 	defer f.state.mu.RUnlock()
+	full, ok := f.handles.where(key)
+	if !ok {
+		return nil, fs.ErrNotExist
+	}
 	return f.top().fsys.OpenFile(f.topPath(full), os.O_RDONLY, 0)
 }
 
-- 
2.43.0


From 3a34a9f5eb51af7aaf72d6810f77783fa7cb5109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:35 +0000
Subject: [PATCH 36/65] fix: concurrent appends to a synthfs file overwrite
 each other

A write on an O_APPEND handle took the end of the file and the write itself
in two steps, so two appends could land on the same offset, and a truncate in
between left a hole.
---
 vroot/synthfs/view_mem_buf.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/vroot/synthfs/view_mem_buf.go b/vroot/synthfs/view_mem_buf.go
index 1a2866b..043ce17 100644
--- a/vroot/synthfs/view_mem_buf.go
+++ b/vroot/synthfs/view_mem_buf.go
@@ -79,13 +79,29 @@ func (b *memBuf) writeAt(p []byte, off int64) (int, error) {
 	}
 	b.mu.Lock()
 	defer b.mu.Unlock()
+	return b.writeAtLocked(p, off), nil
+}
+
+// appendAll writes p at the end of content, which no other write can move in
+// between, and reports where the written bytes end.
+func (b *memBuf) appendAll(p []byte) (n int, end int64) {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	if len(p) > 0 {
+		n = b.writeAtLocked(p, int64(len(b.content)))
+	}
+	return n, int64(len(b.content))
+}
+
+// writeAtLocked writes p at off. Caller holds b.mu (write).
+func (b *memBuf) writeAtLocked(p []byte, off int64) int {
 	end := int(off) + len(p)
 	if end > len(b.content) {
 		b.grow(end - len(b.content))
 	}
 	n := copy(b.content[int(off):], p)
 	b.modTime = b.clock.Now()
-	return n, nil
+	return n
 }
 
 func (b *memBuf) truncate(size int64) error {
@@ -197,7 +213,9 @@ func (h *memHandle) Write(p []byte) (int, error) {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 	if h.flag&os.O_APPEND != 0 {
-		h.off = int64(h.buf.length())
+		n, end := h.buf.appendAll(p)
+		h.off = end
+		return n, nil
 	}
 	n, err := h.buf.writeAt(p, h.off)
 	h.off += int64(n)
-- 
2.43.0


From 20ddcb9d5cf88f1405dff1a8d6f28031f39de554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:24 +0000
Subject: [PATCH 37/65] fix: sftpfs: linking onto an existing name reports
 fs.ErrExist

Every other call maps the server's status; Link handed it on as it came.
---
 vroot-adapter/sftpfs/sftpfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index aab4ee8..754f7b3 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -128,7 +128,7 @@ func (s *SftpFs) Link(oldname, newname string) error {
 	if err != nil {
 		return fsutil.WrapLinkErr("link", oldname, newname, err)
 	}
-	return s.client.Link(oldAbs, newAbs)
+	return mapSftpErr(s.client.Link(oldAbs, newAbs))
 }
 
 // Lstat implements [vroot.Fs].
-- 
2.43.0


From 873a66679b1851e4ca19a6feedcfe2abea62f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:24 +0000
Subject: [PATCH 38/65] fix: sftpfs: opening with O_CREATE and MkdirAll leave
 existing modes alone

OpenFile applied perm to a file that existed already, and MkdirAll to a
directory that existed already, while the intermediate directories it
created kept the server's default.
---
 vroot-adapter/sftpfs/sftpfs.go | 41 +++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index 754f7b3..9234681 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -159,14 +159,37 @@ func (s *SftpFs) Mkdir(name string, perm fs.FileMode) error {
 	return nil
 }
 
-// MkdirAll implements [vroot.Fs].
+// MkdirAll implements [vroot.Fs]. As for Mkdir, perm is best-effort applied
+// via Chmod, to every directory created and to no other.
 func (s *SftpFs) MkdirAll(name string, perm fs.FileMode) error {
 	abs, err := s.resolvePath(name)
 	if err != nil {
 		return fsutil.WrapPathErr("mkdir", name, err)
 	}
-	if err := s.client.MkdirAll(abs); err != nil {
-		return err
+	return s.mkdirAll(abs, perm)
+}
+
+// mkdirAll follows os.MkdirAll's structure for the already-resolved peer-side
+// path abs.
+func (s *SftpFs) mkdirAll(abs string, perm fs.FileMode) error {
+	fi, err := s.client.Stat(abs)
+	if err == nil {
+		if fi.IsDir() {
+			return nil
+		}
+		return fsutil.WrapPathErr("mkdir", abs, syscall.ENOTDIR)
+	}
+	if parent := path.Dir(abs); parent != abs {
+		if err := s.mkdirAll(parent, perm); err != nil {
+			return err
+		}
+	}
+	if err := s.client.Mkdir(abs); err != nil {
+		// Someone else may have been faster.
+		if fi, lerr := s.client.Lstat(abs); lerr == nil && fi.IsDir() {
+			return nil
+		}
+		return mapSftpErr(err)
 	}
 	if perm != 0 {
 		_ = s.client.Chmod(abs, perm)
@@ -183,7 +206,7 @@ func (s *SftpFs) Open(name string) (vroot.File, error) {
 }
 
 // OpenFile implements [vroot.Fs]. perm is best-effort applied via
-// Chmod after the open succeeds.
+// Chmod after the open succeeds, if the open created the file.
 //
 // O_APPEND is honored by seeking to end of file after open because pkg/sftp's
 // stock Server does not implement append-on-write — it ignores SSH_FXF_APPEND
@@ -193,6 +216,14 @@ func (s *SftpFs) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File,
 	if err != nil {
 		return nil, fsutil.WrapPathErr("open", name, err)
 	}
+	created := false
+	if flag&os.O_CREATE != 0 {
+		created = flag&os.O_EXCL != 0
+		if !created {
+			_, err := s.client.Stat(abs)
+			created = isSftpNotExist(err)
+		}
+	}
 	f, err := s.client.OpenFile(abs, flag)
 	if err != nil {
 		return nil, mapSftpErr(err)
@@ -203,7 +234,7 @@ func (s *SftpFs) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File,
 			return nil, fsutil.WrapPathErr("open", name, err)
 		}
 	}
-	if perm != 0 && (flag&os.O_CREATE != 0) {
+	if perm != 0 && created {
 		_ = s.client.Chmod(abs, perm)
 	}
 	return &sftpFile{File: f, client: s.client}, nil
-- 
2.43.0


From 590dff63b745c28d305c8faa4499a844ecda643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:25 +0000
Subject: [PATCH 39/65] fix: sftpfs: append handles write at the end of the
 file

The end was looked up once, at open: whatever was written since through
other handles was overwritten, as it was after a Seek or ReadAt, and reads
started at the end.
---
 vroot-adapter/sftpfs/sftpfs.go | 69 +++++++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 10 deletions(-)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index 9234681..a1cf0ef 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -208,9 +208,10 @@ func (s *SftpFs) Open(name string) (vroot.File, error) {
 // OpenFile implements [vroot.Fs]. perm is best-effort applied via
 // Chmod after the open succeeds, if the open created the file.
 //
-// O_APPEND is honored by seeking to end of file after open because pkg/sftp's
-// stock Server does not implement append-on-write — it ignores SSH_FXF_APPEND
-// and expects the client to track offsets. See pkg/sftp/server.go:494.
+// O_APPEND is honored by seeking to end of file before each write because
+// pkg/sftp's stock Server does not implement append-on-write — it ignores
+// SSH_FXF_APPEND and expects the client to track offsets. See
+// pkg/sftp/server.go:494. Appends of different handles are not atomic.
 func (s *SftpFs) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, error) {
 	abs, err := s.resolvePath(name)
 	if err != nil {
@@ -228,16 +229,10 @@ func (s *SftpFs) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File,
 	if err != nil {
 		return nil, mapSftpErr(err)
 	}
-	if flag&os.O_APPEND != 0 {
-		if _, err := f.Seek(0, io.SeekEnd); err != nil {
-			_ = f.Close()
-			return nil, fsutil.WrapPathErr("open", name, err)
-		}
-	}
 	if perm != 0 && created {
 		_ = s.client.Chmod(abs, perm)
 	}
-	return &sftpFile{File: f, client: s.client}, nil
+	return &sftpFile{File: f, client: s.client, append: flag&os.O_APPEND != 0}, nil
 }
 
 // ReadLink implements [vroot.Fs].
@@ -402,6 +397,9 @@ type sftpFile struct {
 	*sftp.File
 	client *sftp.Client
 
+	append   bool
+	appendMu sync.Mutex // guards the offset of appending files
+
 	dirMu      sync.Mutex
 	dirEntries []os.FileInfo
 	dirLoaded  bool
@@ -414,6 +412,57 @@ func (f *sftpFile) WriteString(s string) (int, error) {
 	return f.Write([]byte(s))
 }
 
+func (f *sftpFile) Write(b []byte) (int, error) {
+	if f.append {
+		f.appendMu.Lock()
+		defer f.appendMu.Unlock()
+		if _, err := f.File.Seek(0, io.SeekEnd); err != nil {
+			return 0, err
+		}
+	}
+	return f.File.Write(b)
+}
+
+// Read keeps clear of the offset an append is about to use.
+func (f *sftpFile) Read(b []byte) (int, error) {
+	if f.append {
+		f.appendMu.Lock()
+		defer f.appendMu.Unlock()
+	}
+	return f.File.Read(b)
+}
+
+// ReadFrom overrides [*sftp.File.ReadFrom], which would write at the current
+// offset even if the file is opened with O_APPEND.
+func (f *sftpFile) ReadFrom(r io.Reader) (int64, error) {
+	if f.append {
+		f.appendMu.Lock()
+		defer f.appendMu.Unlock()
+		if _, err := f.File.Seek(0, io.SeekEnd); err != nil {
+			return 0, err
+		}
+	}
+	return f.File.ReadFrom(r)
+}
+
+// WriteAt mirrors [os.File.WriteAt]: it is refused for a file opened with
+// O_APPEND.
+func (f *sftpFile) WriteAt(b []byte, off int64) (int, error) {
+	if f.append {
+		return 0, fsutil.WrapPathErr("writeat", f.Name(), syscall.EINVAL)
+	}
+	return f.File.WriteAt(b, off)
+}
+
+// Seek keeps clear of the offset an append is about to use.
+func (f *sftpFile) Seek(offset int64, whence int) (int64, error) {
+	if f.append {
+		f.appendMu.Lock()
+		defer f.appendMu.Unlock()
+	}
+	return f.File.Seek(offset, whence)
+}
+
 // Sync forwards to *sftp.File.Sync. Servers that lack the fsync@openssh.com
 // extension (notably pkg/sftp's stock NewServer; OpenSSH's sftp-server has it)
 // surface that as SSH_FX_OP_UNSUPPORTED — treat that as a successful no-op
-- 
2.43.0


From 43fe31f312476ba965a8e38a20b835bb8746175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:25 +0000
Subject: [PATCH 40/65] fix: sftpfs: directory handles can be rewound, and list
 nothing once closed

Seek(0, 0) kept the exhausted listing, a listing worked after Close, and
concurrent calls could share or lose pages between loading and taking one.
---
 vroot-adapter/sftpfs/sftpfs.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index a1cf0ef..3ddab5d 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -404,6 +404,17 @@ type sftpFile struct {
 	dirEntries []os.FileInfo
 	dirLoaded  bool
 	dirErr     error
+	dirClosed  bool
+}
+
+// Close forwards to *sftp.File.Close. Directory reads go around the handle, so
+// they have to be told.
+func (f *sftpFile) Close() error {
+	f.dirMu.Lock()
+	f.dirClosed = true
+	f.dirEntries = nil
+	f.dirMu.Unlock()
+	return f.File.Close()
 }
 
 func (f *sftpFile) Fd() uintptr { return ^uintptr(0) }
@@ -454,13 +465,20 @@ func (f *sftpFile) WriteAt(b []byte, off int64) (int, error) {
 	return f.File.WriteAt(b, off)
 }
 
-// Seek keeps clear of the offset an append is about to use.
+// Seek forwards to *sftp.File.Seek. Rewinding a directory makes the next read
+// list it anew, as [os.File.Seek] does.
 func (f *sftpFile) Seek(offset int64, whence int) (int64, error) {
 	if f.append {
 		f.appendMu.Lock()
 		defer f.appendMu.Unlock()
 	}
-	return f.File.Seek(offset, whence)
+	n, err := f.File.Seek(offset, whence)
+	if err == nil && n == 0 {
+		f.dirMu.Lock()
+		f.dirEntries, f.dirLoaded, f.dirErr = nil, false, nil
+		f.dirMu.Unlock()
+	}
+	return n, err
 }
 
 // Sync forwards to *sftp.File.Sync. Servers that lack the fsync@openssh.com
@@ -480,10 +498,11 @@ func (f *sftpFile) Sync() error {
 }
 
 // loadDir fetches the directory listing once and caches it for paginated
-// readers below.
+// readers below, which hold dirMu.
 func (f *sftpFile) loadDir() error {
-	f.dirMu.Lock()
-	defer f.dirMu.Unlock()
+	if f.dirClosed {
+		return fsutil.WrapPathErr("readdir", f.Name(), fs.ErrClosed)
+	}
 	if f.dirLoaded {
 		return f.dirErr
 	}
@@ -497,11 +516,11 @@ func (f *sftpFile) loadDir() error {
 // Readdir mirrors [os.File.Readdir] semantics: n>0 returns up to n entries
 // (io.EOF when exhausted); n<=0 returns all remaining entries at once.
 func (f *sftpFile) Readdir(n int) ([]fs.FileInfo, error) {
+	f.dirMu.Lock()
+	defer f.dirMu.Unlock()
 	if err := f.loadDir(); err != nil {
 		return nil, err
 	}
-	f.dirMu.Lock()
-	defer f.dirMu.Unlock()
 	if n <= 0 {
 		out := f.dirEntries
 		f.dirEntries = nil
-- 
2.43.0


From 0b9c8b7d2dee8f450f7da9bde07e4dc796e27565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:25 +0000
Subject: [PATCH 41/65] fix: synthfs: close the views below a directory an
 addition replaces

AddFile and AddFS with AddDecisionOverride closed the view of a replaced
file only; replacing a directory by a leaf dropped every view below it
without Close.
---
 vroot/synthfs/add.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 703f06d..d344178 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -65,9 +65,7 @@ func (r *Root) AddFile(name string, view FileView, cb AddFunc) error {
 	case AddDecisionOverride:
 		if existingNode != nil {
 			parent.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
-			}
+			r.removeSubtree(existingNode)
 		}
 		parent.addEntry(base, &file{
 			metadata: metadata{
@@ -185,9 +183,7 @@ func (r *Root) addFSWalk(
 		}
 		if decision == AddDecisionOverride && existingNode != nil {
 			dst.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
-			}
+			r.removeSubtree(existingNode)
 		}
 		if decision == AddDecisionKeep && existingNode != nil {
 			return nil
@@ -215,9 +211,7 @@ func (r *Root) addFSWalk(
 		}
 		if existingNode != nil {
 			dst.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
-			}
+			r.removeSubtree(existingNode)
 		}
 		dst.addEntry(base, &file{
 			metadata: metadata{
-- 
2.43.0


From 87bc985f36d9d3689ea5d7574f68ae6ae31532f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:25 +0000
Subject: [PATCH 42/65] fix: synthfs: AddDecisionKeep keeps an existing leaf
 where a directory comes in

The leaf was unlinked, without closing its view, and the incoming
directory put in its place, also by MergeKeep.
---
 vroot/synthfs/add.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index d344178..dc4b4ff 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -159,6 +159,10 @@ func (r *Root) addFSWalk(
 		case AddDecisionSkip:
 			return nil
 		case AddDecisionKeep:
+			if _, ok := existingNode.(*dir); existingNode != nil && !ok {
+				// An existing leaf is kept, the incoming subtree dropped.
+				return nil
+			}
 			// Reuse or create + descend.
 			d := r.materializeDir(dst, base, info, existingNode, false)
 			return r.descend(d, mountSlash, fsys, rl, src, cb)
-- 
2.43.0


From eb3a8811a2fe63656b6307439beccdc8e1b78ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:25 +0000
Subject: [PATCH 43/65] fix: synthfs: AddFS does not add a leaf that
 AddDecisionKeep drops

Keep on a free path is documented not to add the incoming leaf; AddFS
added it, unlike AddFile.
---
 vroot/synthfs/add.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index dc4b4ff..4054c02 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -171,7 +171,8 @@ func (r *Root) addFSWalk(
 			return r.descend(d, mountSlash, fsys, rl, src, cb)
 		}
 	case info.Mode()&fs.ModeSymlink != 0:
-		if decision == AddDecisionSkip {
+		if decision == AddDecisionSkip || decision == AddDecisionKeep {
+			// Keep: an existing entry stays, and nothing is added to a free path.
 			return nil
 		}
 		if rl == nil {
@@ -185,13 +186,10 @@ func (r *Root) addFSWalk(
 		if err != nil {
 			return err
 		}
-		if decision == AddDecisionOverride && existingNode != nil {
+		if existingNode != nil {
 			dst.removeEntry(base)
 			r.removeSubtree(existingNode)
 		}
-		if decision == AddDecisionKeep && existingNode != nil {
-			return nil
-		}
 		dst.addEntry(base, &symlink{
 			metadata: metadata{
 				name:    base,
@@ -202,17 +200,13 @@ func (r *Root) addFSWalk(
 		})
 		return nil
 	default: // regular file
-		if decision == AddDecisionSkip {
+		if decision == AddDecisionSkip || decision == AddDecisionKeep {
 			return nil
 		}
 		view, err := NewFsView(fsys, src)
 		if err != nil {
 			return err
 		}
-		if decision == AddDecisionKeep && existingNode != nil {
-			_ = view.Close()
-			return nil
-		}
 		if existingNode != nil {
 			dst.removeEntry(base)
 			r.removeSubtree(existingNode)
-- 
2.43.0


From 6637fd6742de71f33ecdd570b529e278498f5392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:25 +0000
Subject: [PATCH 44/65] fix: synthfs: scaffolding does not replace a dangling
 symlink

AddFile and AddFS below a symlink that leads nowhere replaced the symlink
by an empty directory without consulting the resolver.
---
 vroot/synthfs/add.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 4054c02..42c136e 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -310,6 +310,10 @@ func (r *Root) ensureParents(name, op string) (*dir, string, error) {
 			if perr != nil {
 				return nil, "", perr
 			}
+			if pParent.lookup(pBase) != nil {
+				// A dangling symlink; do not replace it by a directory.
+				return nil, "", err
+			}
 			d := newDir(pBase, scaffoldDirMode&^r.st.opt.umask, r.st.opt.clock.Now(), pParent)
 			pParent.addEntry(pBase, d)
 			parent = d
-- 
2.43.0


From 7295673cc9f6291df10c0d7d66ff7321e87a646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:25 +0000
Subject: [PATCH 45/65] fix: synthfs: a view under two names is closed with the
 last one

Link shares the view, and removing, replacing or renaming over either name
closed it under the other.
---
 vroot/synthfs/link.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/vroot/synthfs/link.go b/vroot/synthfs/link.go
index 482ec9f..10800b3 100644
--- a/vroot/synthfs/link.go
+++ b/vroot/synthfs/link.go
@@ -52,6 +52,12 @@ func (r *Root) Link(oldname, newname string) error {
 	}
 	// Hard link: share the same FileView so writes through either name reflect
 	// on the other. Mode/uid/gid are copied at link time.
+	shared, ok := srcFile.view.(*linkedView)
+	if !ok {
+		shared = &linkedView{FileView: srcFile.view, names: 1}
+		srcFile.view = shared
+	}
+	shared.names++
 	parent.addEntry(base, &file{
 		metadata: metadata{
 			name:    base,
@@ -60,7 +66,22 @@ func (r *Root) Link(oldname, newname string) error {
 			uid:     srcFile.uid,
 			gid:     srcFile.gid,
 		},
-		view: srcFile.view,
+		view: shared,
 	})
 	return nil
 }
+
+// linkedView is a view bound under more than one name; it closes the view with
+// the last of them. names is guarded by state.mu.
+type linkedView struct {
+	FileView
+	names int
+}
+
+func (v *linkedView) Close() error {
+	v.names--
+	if v.names > 0 {
+		return nil
+	}
+	return v.FileView.Close()
+}
-- 
2.43.0


From 4b4bf87bce3f402f1b731555f4b9e95152782ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:25 +0000
Subject: [PATCH 46/65] fix: synthfs: an open that fails creates nothing

When the allocated view could not be opened, OpenFile returned the error
but left the new file in the tree.
---
 vroot/synthfs/open.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vroot/synthfs/open.go b/vroot/synthfs/open.go
index e9e5b72..7f7eff4 100644
--- a/vroot/synthfs/open.go
+++ b/vroot/synthfs/open.go
@@ -44,8 +44,13 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 				},
 				view: view,
 			}
+			h, err := r.openFileNode(nf, name, flag)
+			if err != nil {
+				_ = view.Close()
+				return nil, err
+			}
 			parent.addEntry(base, nf)
-			return r.openFileNode(nf, name, flag)
+			return h, nil
 		}
 	}
 
-- 
2.43.0


From 7a411799ff4517c80ec52869a9f999c1d90037ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:52 +0000
Subject: [PATCH 47/65] fix: overlayfs exclusive open of an existing directory
 did not report fs.ErrExist

---
 vroot-adapter/overlayfs/open.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vroot-adapter/overlayfs/open.go b/vroot-adapter/overlayfs/open.go
index 984a3c0..c1ef3db 100644
--- a/vroot-adapter/overlayfs/open.go
+++ b/vroot-adapter/overlayfs/open.go
@@ -41,12 +41,12 @@ func (f *Fs) openWrite(name string, flag int, perm fs.FileMode) (vroot.File, err
 	masked := false
 	res, err := f.state.lookup(full)
 	switch {
+	case err == nil && creating && flag&os.O_EXCL != 0:
+		// Whatever is there, a directory included.
+		return nil, fsutil.WrapPathErr("open", name, fs.ErrExist)
 	case err == nil && res.info.IsDir():
 		return nil, fsutil.WrapPathErr("open", name, syscall.EISDIR)
 	case err == nil:
-		if creating && flag&os.O_EXCL != 0 {
-			return nil, fsutil.WrapPathErr("open", name, fs.ErrExist)
-		}
 		// O_TRUNC copies the data up only to drop it again. Copying anyway keeps
 		// one gate for every write instead of a second path that has to get the
 		// mode, the times and the parents right on its own.
-- 
2.43.0


From 9680056b5eaa499bc3cfe2164632d5a74baeb9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:04 +0000
Subject: [PATCH 48/65] fix: synthfs: Mkdir of the root reported EINVAL instead
 of fs.ErrExist

---
 vroot/synthfs/mkdir.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vroot/synthfs/mkdir.go b/vroot/synthfs/mkdir.go
index c9a0f68..1893490 100644
--- a/vroot/synthfs/mkdir.go
+++ b/vroot/synthfs/mkdir.go
@@ -45,6 +45,10 @@ func (r *Root) MkdirAll(name string, perm fs.FileMode) error {
 
 // mkdirLocked is the body of [Mkdir]; callers must hold state.mu (write).
 func (r *Root) mkdirLocked(name string, perm fs.FileMode) error {
+	if slash, err := normalize(name); err == nil && slash == "." {
+		// The boundary itself is always there.
+		return toPathErr("mkdir", name, fs.ErrExist)
+	}
 	parent, base, err := r.st.resolveParent(r.boundary, r.boundary, name, "mkdir")
 	if err != nil {
 		return err
-- 
2.43.0


From fe6d4aa52c60e38f0e87ce3ad617eb1949d9bf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:04 +0000
Subject: [PATCH 49/65] fix: fsutil: Push of empty content to a sink that holds
 nothing failed

---
 fsutil/resumable.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 9ce3679..17953d1 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -511,8 +511,9 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 		offset = 0
 	}
 
-	// Step 4: sink already has all bytes — just commit.
-	if offset == actualSize {
+	// Step 4: sink already has all bytes — just commit. At offset 0 the sink may
+	// not have begun at all: empty content is appended like any other.
+	if offset == actualSize && offset > 0 {
 		return sink.Commit(ctx)
 	}
 
-- 
2.43.0


From 8dd0b0fab0c2c204a4d7ec88e7b4fcc079ba2a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:16 +0000
Subject: [PATCH 50/65] fix: fsutil: Pull committed content the caller had not
 asked for when the source changed between two opens

---
 fsutil/resumable.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 17953d1..d07a235 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -354,6 +354,11 @@ func (opt ResumableCopyOption[Fsys, File]) Pull(
 			if err != nil {
 				return WrapPathErr("open-source", name, err)
 			}
+			// The source may have changed since it was opened first.
+			if expected.ETag != "" && srcInfo.ETag != "" && srcInfo.ETag != expected.ETag {
+				_ = r.Close()
+				return WrapPathErr("pull", name, ErrContentChanged)
+			}
 			startAt = 0
 		}
 	}
-- 
2.43.0


From b5205e26c2df54608e28f70db792b15be0e54066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:18 +0000
Subject: [PATCH 51/65] fix: fsutil: TempFilePolicyDir of "." did not recognise
 its own temporary files

---
 fsutil/safe_write.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fsutil/safe_write.go b/fsutil/safe_write.go
index 535d16d..4174628 100644
--- a/fsutil/safe_write.go
+++ b/fsutil/safe_write.go
@@ -473,6 +473,7 @@ func (p TempFilePolicyDir[Fsys, File]) Match(path string) bool {
 
 	// Check if path is within temp directory
 	isInTempDir := cleanPath == cleanTempDir ||
+		cleanTempDir == "." && filepath.IsLocal(cleanPath) ||
 		(len(cleanPath) > len(cleanTempDir)+1 &&
 			cleanPath[:len(cleanTempDir)] == cleanTempDir &&
 			cleanPath[len(cleanTempDir)] == filepath.Separator)
-- 
2.43.0


From 1501cfeffde0fd7474fda1c3b8c4a88cf22e0801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:03 +0000
Subject: [PATCH 52/65] fix: fsutil: a failing sidecar rewrite in FsSink.Append
 lost the identity of the part's bytes

---
 fsutil/resumable_fs.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fsutil/resumable_fs.go b/fsutil/resumable_fs.go
index 01aac23..0f51d1f 100644
--- a/fsutil/resumable_fs.go
+++ b/fsutil/resumable_fs.go
@@ -255,13 +255,23 @@ func (s *FsSink[Fsys, File]) Append(
 		}
 	}
 
+	// A sidecar that already names the content is left alone: rewriting it could
+	// lose the identity of the bytes the part file holds.
+	var storedETag string
+	if offset > 0 && info.ETag != "" {
+		if storedETag, err = s.readSidecar(); err != nil {
+			_ = f.Close()
+			return WrapPathErr("read-sidecar", s.sidecarPath(), err)
+		}
+	}
+
 	// Persist ETag to sidecar before writing any data.
-	if info.ETag != "" {
+	if info.ETag != "" && info.ETag != storedETag {
 		if werr := s.writeSidecar(info.ETag); werr != nil {
 			_ = f.Close()
 			return WrapPathErr("write-sidecar", s.sidecarPath(), werr)
 		}
-	} else if offset == 0 {
+	} else if info.ETag == "" && offset == 0 {
 		// A sidecar left by an earlier push describes other content.
 		rerr := s.fsys.Remove(s.sidecarPath())
 		if rerr != nil && !errors.Is(rerr, fs.ErrNotExist) {
-- 
2.43.0


From bbbf49cc4424c1570c8cae06cba4b738679036f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:04 +0000
Subject: [PATCH 53/65] fix: sftpfs: io.Copy into a file dropped the error of
 the last write

---
 vroot-adapter/sftpfs/sftpfs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index 3ddab5d..1123c5f 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -444,7 +444,8 @@ func (f *sftpFile) Read(b []byte) (int, error) {
 }
 
 // ReadFrom overrides [*sftp.File.ReadFrom], which would write at the current
-// offset even if the file is opened with O_APPEND.
+// offset even if the file is opened with O_APPEND, and which drops the error of
+// the last write unless the content ends exactly with a packet.
 func (f *sftpFile) ReadFrom(r io.Reader) (int64, error) {
 	if f.append {
 		f.appendMu.Lock()
@@ -453,7 +454,8 @@ func (f *sftpFile) ReadFrom(r io.Reader) (int64, error) {
 			return 0, err
 		}
 	}
-	return f.File.ReadFrom(r)
+	// Several packets at once, for clients that write concurrently.
+	return io.CopyBuffer(struct{ io.Writer }{f.File}, r, make([]byte, 8*32*1024))
 }
 
 // WriteAt mirrors [os.File.WriteAt]: it is refused for a file opened with
-- 
2.43.0


From 7a436b8a4e7a5c5c612e56c49bcd2a46e75233ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:04 +0000
Subject: [PATCH 54/65] fix: sftpfs: io.Copy from a file failed once the name
 it was opened by was gone

---
 vroot-adapter/sftpfs/sftpfs.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index 1123c5f..b9525a1 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -458,6 +458,33 @@ func (f *sftpFile) ReadFrom(r io.Reader) (int64, error) {
 	return io.CopyBuffer(struct{ io.Writer }{f.File}, r, make([]byte, 8*32*1024))
 }
 
+// WriteTo overrides [*sftp.File.WriteTo], which looks the size up by the name the
+// file was opened by and fails once that name is gone.
+func (f *sftpFile) WriteTo(w io.Writer) (int64, error) {
+	if f.append {
+		f.appendMu.Lock()
+		defer f.appendMu.Unlock()
+	}
+	tw := &touchedWriter{w: w}
+	n, err := f.File.WriteTo(tw)
+	if err != nil && !tw.touched {
+		// Nothing was read yet. Reading does not need the name.
+		return io.Copy(w, struct{ io.Reader }{f.File})
+	}
+	return n, err
+}
+
+// touchedWriter tells whether it was ever written to.
+type touchedWriter struct {
+	w       io.Writer
+	touched bool
+}
+
+func (w *touchedWriter) Write(b []byte) (int, error) {
+	w.touched = true
+	return w.w.Write(b)
+}
+
 // WriteAt mirrors [os.File.WriteAt]: it is refused for a file opened with
 // O_APPEND.
 func (f *sftpFile) WriteAt(b []byte, off int64) (int, error) {
-- 
2.43.0


From 02b26ad29a87a382d7a4d2389f12c159f45c96b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:45 +0000
Subject: [PATCH 55/65] fix: sftpfs: a refused removal of a dangling symlink
 counted as done

sftp.Client.Remove stats the path when the server refuses, and a dangling
link then reads as not existing: RemoveAll returned nil and Remove said
not-exist although the link was still there.
---
 vroot-adapter/sftpfs/sftpfs.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index b9525a1..22af907 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -253,7 +253,26 @@ func (s *SftpFs) Remove(name string) error {
 	if err != nil {
 		return fsutil.WrapPathErr("remove", name, err)
 	}
-	return s.client.Remove(abs)
+	return s.remove(abs)
+}
+
+// remove removes the already-resolved peer-side path abs.
+//
+// When the server refuses, [sftp.Client.Remove] stats the path to choose which
+// of its errors to report and returns the error of that stat if it fails. So a
+// refused removal of a dangling symlink comes back as "does not exist".
+func (s *SftpFs) remove(abs string) error {
+	err := s.client.Remove(abs)
+	if err == nil || !isSftpNotExist(err) {
+		return err
+	}
+	if _, lerr := s.client.Lstat(abs); lerr != nil {
+		if isSftpNotExist(lerr) {
+			return err
+		}
+		return lerr
+	}
+	return s.client.RemoveDirectory(abs)
 }
 
 // RemoveAll implements [vroot.Fs], mirroring [os.RemoveAll]: it removes
@@ -288,7 +307,7 @@ func (s *SftpFs) removeAll(abs string) error {
 	// Simple case: if Remove works, we're done. sftp's Client.Remove falls
 	// back from unlink to rmdir, so a single call also clears empty
 	// directories and removes symlinks without following them.
-	err := s.client.Remove(abs)
+	err := s.remove(abs)
 	if err == nil || isSftpNotExist(err) {
 		return nil
 	}
@@ -318,7 +337,7 @@ func (s *SftpFs) removeAll(abs string) error {
 			firstErr = err1
 		}
 	}
-	if err1 := s.client.Remove(abs); err1 != nil && !isSftpNotExist(err1) && firstErr == nil {
+	if err1 := s.remove(abs); err1 != nil && !isSftpNotExist(err1) && firstErr == nil {
 		firstErr = err1
 	}
 	return firstErr
-- 
2.43.0


From bfe66a8486d4f80544d5ce340fda5fc9214522fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:14 +0000
Subject: [PATCH 56/65] fix: synthfs: a file whose truncation fails on open
 left the file system locked

---
 vroot/synthfs/open.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vroot/synthfs/open.go b/vroot/synthfs/open.go
index 7f7eff4..9cee2cc 100644
--- a/vroot/synthfs/open.go
+++ b/vroot/synthfs/open.go
@@ -74,7 +74,9 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 			// Truncate through the open handle so aliased views (e.g. hard
 			// links) see the same shrink. Re-Allocate would desynchronize.
 			if terr := h.Truncate(0); terr != nil {
-				_ = h.Close()
+				// Not h.Close: it takes state.mu, which is held here.
+				nd.refCount--
+				_ = h.inner.Close()
 				return nil, terr
 			}
 		}
@@ -89,7 +91,7 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 
 // openFileNode opens the view and wraps it in a fileHandle, bumping refCount
 // on success. Caller holds state.mu (write).
-func (r *Root) openFileNode(nd *file, userName string, flag int) (vroot.File, error) {
+func (r *Root) openFileNode(nd *file, userName string, flag int) (*fileHandle, error) {
 	inner, err := nd.view.Open(flag)
 	if err != nil {
 		return nil, toPathErr("open", userName, err)
-- 
2.43.0


From ed9007d01213714faf2fb8fd3e665f60895212f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:38 +0000
Subject: [PATCH 57/65] fix: tarfs: a contiguous member's body was skipped as
 if it had none, shifting what follows

---
 tarfs/headers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/headers.go b/tarfs/headers.go
index 23a74a3..34ae71b 100644
--- a/tarfs/headers.go
+++ b/tarfs/headers.go
@@ -84,7 +84,7 @@ func Sections(r io.ReaderAt) iter.Seq2[*Section, error] {
 
 			switch hh.h.Typeflag {
 			case tar.TypeLink, tar.TypeSymlink, tar.TypeChar, tar.TypeBlock, tar.TypeDir, tar.TypeFifo,
-				tar.TypeCont, tar.TypeXHeader, tar.TypeXGlobalHeader,
+				tar.TypeXHeader, tar.TypeXGlobalHeader,
 				tar.TypeGNULongName, tar.TypeGNULongLink:
 				// They have size for name.
 				hh.bodyEnd = hh.headerEnd
-- 
2.43.0


From 3713df91cbbcd498b7dd413d9c86934ebc8634ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:38 +0000
Subject: [PATCH 58/65] fix: tarfs: a failing read of a sparse map was ignored
 and the member read as wrong bytes

---
 tarfs/headers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tarfs/headers.go b/tarfs/headers.go
index 34ae71b..5d8bc98 100644
--- a/tarfs/headers.go
+++ b/tarfs/headers.go
@@ -80,7 +80,11 @@ func Sections(r io.ReaderAt) iter.Seq2[*Section, error] {
 				hh.headerStart = prev.bodyEnd + (-prev.bodyEnd)&(blockSize-1)
 			}
 
-			hh.holes, _ = reconstructSparse(r, hh, &blk)
+			hh.holes, err = reconstructSparse(r, hh, &blk)
+			if err != nil {
+				yield(nil, fmt.Errorf("read tar archive: %w", err))
+				return
+			}
 
 			switch hh.h.Typeflag {
 			case tar.TypeLink, tar.TypeSymlink, tar.TypeChar, tar.TypeBlock, tar.TypeDir, tar.TypeFifo,
-- 
2.43.0


From 001dba44b35823585a0c4a37afea5f7d6ffad0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:38 +0000
Subject: [PATCH 59/65] fix: tarfs: ReadLink's error on a non-link named an
 empty path

---
 tarfs/fs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tarfs/fs.go b/tarfs/fs.go
index e1b67b8..a626c2c 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -179,7 +179,12 @@ func (fsys *Fs) ReadLink(name string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return f.readLink()
+	target, err := f.readLink()
+	if err != nil {
+		overrideErr(err, func(err *fs.PathError) { err.Path = name })
+		return "", err
+	}
+	return target, nil
 }
 
 func (fsys *Fs) Lstat(name string) (fs.FileInfo, error) {
-- 
2.43.0


From 617b3fef05bd800e42504491e446795c31bfcbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:38 +0000
Subject: [PATCH 60/65] fix: fsutil: Push took the size of whatever held the
 name by then, not of the file it had opened

---
 fsutil/resumable.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index d07a235..2126f73 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -487,11 +487,12 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 	}
 	defer f.Close()
 
-	fi, err := fsys.Stat(name)
+	// The size is that of the opened file: name may be given to another one
+	// in the meantime.
+	actualSize, err := f.Seek(0, io.SeekEnd)
 	if err != nil {
-		return WrapPathErr("stat", name, err)
+		return WrapPathErr("seek", name, err)
 	}
-	actualSize := fi.Size()
 
 	if info.Size >= 0 && info.Size != actualSize {
 		return WrapPathErr("push", name, ErrSizeMismatch)
@@ -523,10 +524,8 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 	}
 
 	// Step 5: seek to offset and stream.
-	if offset > 0 {
-		if _, serr := f.Seek(offset, io.SeekStart); serr != nil {
-			return WrapPathErr("seek", name, serr)
-		}
+	if _, serr := f.Seek(offset, io.SeekStart); serr != nil {
+		return WrapPathErr("seek", name, serr)
 	}
 
 	lr := io.LimitReader(f, actualSize-offset)
-- 
2.43.0


From 7333df199783d2d871760e793330b920c21ba115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:38 +0000
Subject: [PATCH 61/65] fix: fsutil: Push committed a cut object when the local
 file was shortened under it

---
 fsutil/resumable.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 2126f73..0bb31d4 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -528,11 +528,15 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 		return WrapPathErr("seek", name, serr)
 	}
 
-	lr := io.LimitReader(f, actualSize-offset)
+	lr := &io.LimitedReader{R: f, N: actualSize - offset}
 	ctxR := &ctxReader{ctx: ctx, r: lr}
 	if aerr := sink.Append(ctx, info, offset, ctxR); aerr != nil {
 		return WrapPathErr("push-append", name, aerr)
 	}
+	if lr.N > 0 {
+		// The file has been shortened: the sink lacks a part of the content.
+		return WrapPathErr("push", name, io.ErrUnexpectedEOF)
+	}
 
 	// Step 6: commit.
 	return sink.Commit(ctx)
-- 
2.43.0


From 4dc832d9f3e66b07b76af111dd40329e89d93cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:37 +0000
Subject: [PATCH 62/65] fix: overlayfs: Sync on a closed directory handle
 reported success

---
 vroot-adapter/overlayfs/file.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vroot-adapter/overlayfs/file.go b/vroot-adapter/overlayfs/file.go
index 6fc3b3e..da48932 100644
--- a/vroot-adapter/overlayfs/file.go
+++ b/vroot-adapter/overlayfs/file.go
@@ -204,7 +204,14 @@ func (d *mergedDir) Stat() (fs.FileInfo, error) {
 
 // Sync reports success without reaching the layer, as synthfs does: a directory
 // handle here is a listing and a cursor, and there is nothing of it to flush.
-func (d *mergedDir) Sync() error { return nil }
+func (d *mergedDir) Sync() error {
+	d.mu.Lock()
+	defer d.mu.Unlock()
+	if d.closed {
+		return fsutil.WrapPathErr("sync", d.name, fs.ErrClosed)
+	}
+	return nil
+}
 
 func (d *mergedDir) Close() error {
 	d.mu.Lock()
-- 
2.43.0


From 61e85434c843ac26e3e608ef1bba47a7dc705275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:42 +0000
Subject: [PATCH 63/65] fix: fsutil: PathFromTail yielded the root twice for
 the root itself

---
 fsutil/pathutil/head_tail.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fsutil/pathutil/head_tail.go b/fsutil/pathutil/head_tail.go
index 995b8ff..711fd13 100644
--- a/fsutil/pathutil/head_tail.go
+++ b/fsutil/pathutil/head_tail.go
@@ -43,7 +43,7 @@ func PathFromTail(name string) iter.Seq[string] {
 		if !yield(vol + name) {
 			return
 		}
-		if name == "." {
+		if name == "." || name == string(filepath.Separator) {
 			return
 		}
 		rest := name
-- 
2.43.0


From e612e09fb436dae218aa86bbfc6abf9641dd6f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:42 +0000
Subject: [PATCH 64/65] fix: sftpfs: ReadDir listed in the server's order, not
 sorted by name

---
 vroot-adapter/sftpfs/sftpfs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index 22af907..5c5c437 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -7,6 +7,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"slices"
 	"strings"
 	"sync"
 	"syscall"
@@ -406,6 +407,11 @@ func (s *SftpFs) ReadDir(name string) ([]fs.DirEntry, error) {
 	for i, fi := range fis {
 		out[i] = sftpDirEntry{fi: fi}
 	}
+	// The server lists in any order; [vroot.ReadDir] and [fs.ReadDirFS] are sorted.
+	slices.SortFunc(
+		out,
+		func(i, j fs.DirEntry) int { return strings.Compare(i.Name(), j.Name()) },
+	)
 	return out, nil
 }
 
-- 
2.43.0


From b3d8a6f24271095307747c630e53c3115a107c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:50 +0000
Subject: [PATCH 65/65] fix: synthfs: Chmod let a mode mask that keeps type
 bits change an entry's type

---
 vroot/synthfs/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vroot/synthfs/tree.go b/vroot/synthfs/tree.go
index d979a63..9b48a93 100644
--- a/vroot/synthfs/tree.go
+++ b/vroot/synthfs/tree.go
@@ -185,7 +185,7 @@ func chmodApply(opt *resolvedOption, m *metadata, mode fs.FileMode) {
 	const extraBits = fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky |
 		fs.ModeAppend | fs.ModeExclusive | fs.ModeTemporary
 	typeBits := m.mode & ^fs.ModePerm & ^extraBits
-	m.mode = typeBits | opt.maskChmodMode(mode)
+	m.mode = typeBits | opt.maskChmodMode(mode)&^fs.ModeType
 }
 
 // Compile-time assertion that *Root will satisfy the generic root constraint
-- 
2.43.0

