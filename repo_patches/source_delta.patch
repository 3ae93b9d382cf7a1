From a36810d3096bd5752db51a89c1ab86e61b2bd0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:22 +0000
Subject: [PATCH 01/54] fix: squash: keep hiding a whited-out directory's
 contents when it is re-created

When one layer whites out "foo" and the same or a later layer has a
"foo/" directory entry, the ".wh.foo" marker was simply dropped, so that
the contents of a lower layer's "foo/" came back when the squashed layer
was applied.  Replace the marker with an opaque marker inside of the
directory.
---
 pkg/squash/vfs.go | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 2a0c1a5..2f58990 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -92,16 +92,7 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 			}
 			f.header = nil
 			f.body = nil
-			whFile, err := f.Get(".wh..wh..opq", true, true)
-			if err != nil {
-				return nil, err
-			}
-			if err := whFile.Set(&tar.Header{
-				Typeflag: tar.TypeReg,
-				Mode:     0o644,
-			}, nil); err != nil {
-				return nil, err
-			}
+			f.markOpaque()
 		}
 		// Look up the child
 		if f.children == nil {
@@ -173,16 +164,7 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 		// make a potential previous implicit whiteout explicit.  I say "potential" because
 		// without the entire layer stack (which this function explicitly doesn't require),
 		// we can't know if any given file was such a dir-to-non-dir conversion.
-		whFile, err := f.Get(".wh..wh..opq", true, true)
-		if err != nil {
-			return err
-		}
-		if err := whFile.Set(&tar.Header{
-			Typeflag: tar.TypeReg,
-			Mode:     0o644,
-		}, nil); err != nil {
-			return err
-		}
+		f.markOpaque()
 	}
 	if f.parent != nil {
 		if basename := path.Base(f.name); strings.HasPrefix(basename, ".wh.") {
@@ -195,13 +177,35 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 			} else {
 				delete(f.parent.children, strings.TrimPrefix(basename, ".wh."))
 			}
-		} else {
+		} else if _, whiteout := f.parent.children[".wh."+basename]; whiteout {
+			// The new file replaces whatever the explicit whiteout was hiding; but a
+			// directory would merge with it, so keep hiding the old directory's contents.
 			delete(f.parent.children, ".wh."+basename)
+			if f.header.Typeflag == tar.TypeDir {
+				f.markOpaque()
+			}
 		}
 	}
 	return nil
 }
 
+// markOpaque adds an opaque whiteout marker to the directory, without affecting the files that have
+// already been added to it.
+func (f *fsfile) markOpaque() {
+	const basename = ".wh..wh..opq"
+	if f.children == nil {
+		f.children = make(map[string]*fsfile)
+	}
+	f.children[basename] = &fsfile{ //nolint:exhaustivestruct
+		name:   path.Join(f.name, basename),
+		parent: f,
+		header: &tar.Header{ //nolint:exhaustivestruct
+			Typeflag: tar.TypeReg,
+			Mode:     0o644,
+		},
+	}
+}
+
 func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 	name := f.name
 
-- 
2.43.0


From 08190066d3d136b3d642a3163b0a2641ab58f1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:31 +0000
Subject: [PATCH 02/54] fix: squash: do not fail on names that the USTAR format
 cannot encode

The tar.Header.Format of the input was passed on to the output; but the
name might have become longer or non-ASCII because of adding the trailing
"/" to a directory or because of resolving symlinks.
---
 pkg/squash/vfs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 2f58990..f8f89bd 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -215,6 +215,12 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 		}
 		hdr := *f.header // shallow copy
 		hdr.Name = name
+		if hdr.Format == tar.FormatUSTAR {
+			// The name might not be the one that the input layer had for it (because of
+			// the trailing "/", or because of resolving symlinks), and so USTAR might
+			// not be able to encode it.
+			hdr.Format = tar.FormatUnknown
+		}
 		if err := tarWriter.WriteHeader(&hdr); err != nil {
 			return err
 		}
-- 
2.43.0


From c3fff8075bd8f2c841db967010306f4219c66485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:36 +0000
Subject: [PATCH 03/54] fix: squash: do not write to the filesystem when only
 reading from it

Looking up a file inside of a directory that has no children wrote to
the `children` map pointer, which is a data race if the io/fs.FS is used
from multiple goroutines.
---
 pkg/squash/vfs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index f8f89bd..ed1a170 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -95,10 +95,10 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 			f.markOpaque()
 		}
 		// Look up the child
-		if f.children == nil {
-			f.children = make(map[string]*fsfile)
-		}
 		if _, ok := f.children[child]; create && !ok {
+			if f.children == nil {
+				f.children = make(map[string]*fsfile)
+			}
 			f.children[child] = &fsfile{ //nolint:exhaustivestruct
 				name:   path.Join(f.name, child),
 				parent: f,
-- 
2.43.0


From 68d07bcb3b45189bd8c74e106e22bd5409077fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:41 +0000
Subject: [PATCH 04/54] fix: squash: list directories that contain a broken
 symlink

ReadDir failed if any one of the symlinks in the directory is dangling
(or is part of a loop).
---
 pkg/squash/vfs_fs.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/squash/vfs_fs.go b/pkg/squash/vfs_fs.go
index 7dd2b05..00c91ad 100644
--- a/pkg/squash/vfs_fs.go
+++ b/pkg/squash/vfs_fs.go
@@ -185,14 +185,14 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 				lnkDirEnt = missingDirEntry(childname)
 			}
 
-			tgt, err := lnk.Get(".", false, true) // follow symlinks
-			if err != nil {
-				return nil, err
-			}
 			var tgtDirEnt fs.DirEntry
-			if tgt.header != nil {
+			tgt, err := lnk.Get(".", false, true) // follow symlinks
+			switch {
+			case err != nil: // a broken symlink is no reason to fail to list the directory
+				tgtDirEnt = lnkDirEnt
+			case tgt.header != nil:
 				tgtDirEnt = fs.FileInfoToDirEntry(tgt.header.FileInfo())
-			} else {
+			default:
 				tgtDirEnt = missingDirEntry(childname)
 			}
 
-- 
2.43.0


From eb5f87c5ea93a085027c9412b8b9a5980c51517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:14 +0000
Subject: [PATCH 05/54] fix: squash: bound the number of symlinks followed
 while resolving a path

A symlink whose target goes through itself (such as "a -> a/b") recursed
until the stack overflowed, which is not recoverable; and nested chains
of symlinks could take exponential time.  Give up with ELOOP instead.
---
 pkg/squash/vfs.go | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index ed1a170..d825106 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -27,7 +27,16 @@ type fsfile struct {
 	body   []byte
 }
 
+// maxLinks is how many symlinks may be followed while resolving a single pathname, before giving up
+// with ErrLoop.
+const maxLinks = 255
+
 func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, error) {
+	return fsGetLimited(dir, pathname, create, followLinks, new(int))
+}
+
+// fsGetLimited is like fsGet, but also takes the number of symlinks that have been followed so far.
+func fsGetLimited(dir *fsfile, pathname string, create, followLinks bool, numLinks *int) (*fsfile, error) {
 	pathname = path.Clean(pathname)
 
 	done := 0 // index of the next byte in pathname to look at
@@ -47,13 +56,13 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 			break
 		}
 		var err error
-		dir, err = dir.Get(pathname[done:done+slash], create, false)
+		dir, err = dir.getLimited(pathname[done:done+slash], create, false, numLinks)
 		done += slash + 1
 		if err != nil {
 			return nil, err
 		}
 	}
-	ret, err := dir.Get(pathname[done:], create, followLinks)
+	ret, err := dir.getLimited(pathname[done:], create, followLinks, numLinks)
 	if err != nil {
 		return nil, err
 	}
@@ -61,6 +70,20 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 }
 
 func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
+	return f.getLimited(child, create, followLinks, new(int))
+}
+
+// readlink resolves the symlink f.
+func (f *fsfile) readlink(create, followLinks bool, numLinks *int) (*fsfile, error) {
+	*numLinks++
+	if *numLinks > maxLinks {
+		return nil, ErrLoop
+	}
+	return fsGetLimited(f.parent, f.header.Linkname, create, followLinks, numLinks)
+}
+
+// getLimited is like Get, but also takes the number of symlinks that have been followed so far.
+func (f *fsfile) getLimited(child string, create, followLinks bool, numLinks *int) (*fsfile, error) {
 	var ret *fsfile
 
 	switch child {
@@ -70,7 +93,7 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 		ret = f
 	default:
 		if f.header != nil && f.header.Typeflag == tar.TypeSymlink {
-			newF, err := fsGet(f.parent, f.header.Linkname, create, true)
+			newF, err := f.readlink(create, true, numLinks)
 			if err != nil {
 				return nil, &fs.PathError{
 					Op:   "vfs.readlink(dir)",
@@ -108,17 +131,8 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 	}
 
 	// Resolve symlinks
-	stack := make(map[*fsfile]struct{})
 	for followLinks && ret != nil && ret.header != nil && ret.header.Typeflag == tar.TypeSymlink {
-		if _, loop := stack[ret]; loop {
-			return nil, &fs.PathError{
-				Op:   "vfs.readlink",
-				Path: "/" + ret.name,
-				Err:  ErrLoop,
-			}
-		}
-		stack[ret] = struct{}{}
-		target, err := fsGet(ret.parent, ret.header.Linkname, create, false)
+		target, err := ret.readlink(create, false, numLinks)
 		if err != nil {
 			return nil, &fs.PathError{
 				Op:   "vfs.readlink",
-- 
2.43.0


From 08ee39a24cdd9e0da40ca7447639dd89bdce5da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:21 +0000
Subject: [PATCH 06/54] fix: squash: resolve hard links

Hard links were copied to the output as-is, but: the sorting could put
the link before the file that it links to, a later change to (or whiteout
of) the linked-to path would also change (or break) the link, and reading
the link through the io/fs.FS gave an empty file.  Resolve hard links when
loading the layer, have the links share the file, and only write out the
later ones (in output order) as hard links.
---
 pkg/squash/squash.go | 16 +++++++++++++++-
 pkg/squash/vfs.go    | 28 +++++++++++++++++++++++++---
 pkg/squash/vfs_fs.go |  6 ++++--
 3 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/pkg/squash/squash.go b/pkg/squash/squash.go
index e169b56..0b54008 100644
--- a/pkg/squash/squash.go
+++ b/pkg/squash/squash.go
@@ -34,11 +34,25 @@ func loadLayers(layers []ociv1.Layer, omitContent bool) (*fsfile, error) {
 			}
 		}
 		for _, file := range layerFS.Files {
+			// If it's a hard link to something in the layers, then resolve it now; later
+			// changes to the path that it links to don't affect the link.
+			var linkTarget *fsfile
+			if file.Header.Typeflag == tar.TypeLink {
+				linkTarget, err = fsGet(root, file.Header.Linkname, false, false)
+				if err != nil || linkTarget.header == nil || linkTarget.header.Typeflag == tar.TypeDir {
+					linkTarget = nil
+				}
+			}
 			vfsFile, err := fsGet(root, file.Header.Name, true, false)
 			if err != nil {
 				return nil, err
 			}
-			if err := vfsFile.Set(file.Header, file.Body); err != nil {
+			if linkTarget != nil && linkTarget.header != nil {
+				err = vfsFile.Link(linkTarget)
+			} else {
+				err = vfsFile.Set(file.Header, file.Body)
+			}
+			if err != nil {
 				return nil, err
 			}
 		}
diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index d825106..3e20e91 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -22,7 +22,8 @@ type fsfile struct {
 	parent   *fsfile
 	children map[string]*fsfile
 
-	// if header is nil, that implies that this is a directory
+	// if header is nil, that implies that this is a directory; hard links to the same file
+	// share the same header pointer
 	header *tar.Header
 	body   []byte
 }
@@ -162,7 +163,15 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 		_hdr := *hdr
 		hdr = &_hdr
 	}
+	return f.set(hdr, body)
+}
+
+// Link makes f be a hard link to the (non-directory) file target.
+func (f *fsfile) Link(target *fsfile) error {
+	return f.set(target.header, target.body)
+}
 
+func (f *fsfile) set(hdr *tar.Header, body []byte) error {
 	wasFile := f.header != nil && f.header.Typeflag != tar.TypeDir
 
 	f.header = hdr
@@ -221,6 +230,10 @@ func (f *fsfile) markOpaque() {
 }
 
 func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
+	return f.writeTo(tarWriter, make(map[*tar.Header]string))
+}
+
+func (f *fsfile) writeTo(tarWriter *tar.Writer, written map[*tar.Header]string) error {
 	name := f.name
 
 	if f.header != nil {
@@ -229,6 +242,15 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 		}
 		hdr := *f.header // shallow copy
 		hdr.Name = name
+		body := f.body
+		if linkname, ok := written[f.header]; ok {
+			hdr.Typeflag = tar.TypeLink
+			hdr.Linkname = linkname
+			hdr.Size = 0
+			body = nil
+		} else {
+			written[f.header] = name
+		}
 		if hdr.Format == tar.FormatUSTAR {
 			// The name might not be the one that the input layer had for it (because of
 			// the trailing "/", or because of resolving symlinks), and so USTAR might
@@ -238,7 +260,7 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 		if err := tarWriter.WriteHeader(&hdr); err != nil {
 			return err
 		}
-		if _, err := tarWriter.Write(f.body); err != nil {
+		if _, err := tarWriter.Write(body); err != nil {
 			return err
 		}
 	}
@@ -263,7 +285,7 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 
 	for _, childName := range childNames {
 		child := f.children[childName]
-		if err := child.WriteTo(tarWriter); err != nil {
+		if err := child.writeTo(tarWriter, written); err != nil {
 			return err
 		}
 	}
diff --git a/pkg/squash/vfs_fs.go b/pkg/squash/vfs_fs.go
index 00c91ad..8a58ebc 100644
--- a/pkg/squash/vfs_fs.go
+++ b/pkg/squash/vfs_fs.go
@@ -79,7 +79,7 @@ func (f *fsfileReader) Stat() (fs.FileInfo, error) {
 		}
 	}
 	hdr := *f.tgt.header // shallow copy
-	hdr.Name = f.lnk.header.Name
+	hdr.Name = f.lnk.name
 	return hdr.FileInfo(), nil
 }
 
@@ -180,7 +180,9 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 
 			var lnkDirEnt fs.DirEntry
 			if lnk.header != nil {
-				lnkDirEnt = fs.FileInfoToDirEntry(lnk.header.FileInfo())
+				hdr := *lnk.header // shallow copy
+				hdr.Name = lnk.name
+				lnkDirEnt = fs.FileInfoToDirEntry(hdr.FileInfo())
 			} else {
 				lnkDirEnt = missingDirEntry(childname)
 			}
-- 
2.43.0


From 7759b0b06c582e12d5102e7565c558c00f9a3f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:16 +0000
Subject: [PATCH 07/54] fix: squash: resolve symlinks to "/"

Resolving a path through a symlink to the root directory created a bogus
directory with an empty name, and so files below it ended up duplicating
(instead of replacing) the files in the root directory, and could not be
found in the io/fs.FS.
---
 pkg/squash/vfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 3e20e91..eb1576b 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -90,7 +90,7 @@ func (f *fsfile) getLimited(child string, create, followLinks bool, numLinks *in
 	switch child {
 	case "..":
 		ret = f.parent
-	case ".":
+	case ".", "": // "" is what is left of an absolute path to the root directory
 		ret = f
 	default:
 		if f.header != nil && f.header.Typeflag == tar.TypeSymlink {
-- 
2.43.0


From 81112b1fd9f79a0ad9fb0dda061576d62a2752d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:10 +0000
Subject: [PATCH 08/54] fix: dir: apply the ownership before writing the header

The --chown-* flags (and root-ownership of "layer gobuild" binaries) had
no effect, because they were only applied to the tar header after it had
already been written.
---
 pkg/dir/dir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index a482fee..01cc923 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -122,9 +122,6 @@ func LayerFromDir(
 		if header.ChangeTime.After(clampTime) {
 			header.ChangeTime = clampTime
 		}
-		if err := tarWriter.WriteHeader(header); err != nil {
-			return err
-		}
 		if chown != nil {
 			if chown.UID >= 0 {
 				header.Uid = chown.UID
@@ -139,6 +136,9 @@ func LayerFromDir(
 				header.Gname = chown.GName
 			}
 		}
+		if err := tarWriter.WriteHeader(header); err != nil {
+			return err
+		}
 		if header.Typeflag == tar.TypeReg {
 			reader, err := os.Open(filename)
 			if err != nil {
-- 
2.43.0


From ea5f63dbdeefad3d0fbc831a3cd2f0f67b0bd551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:14 +0000
Subject: [PATCH 09/54] fix: dir: do not silently create an empty layer

If the directory name is a symlink to a directory then follow it, and if
it is not a directory then fail; both used to quietly result in an empty
layer.
---
 pkg/dir/dir.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index 01cc923..19ca01d 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"syscall"
 	"time"
 
 	ociv1 "github.com/google/go-containerregistry/pkg/v1"
@@ -38,6 +39,17 @@ func LayerFromDir(
 	clampTime time.Time,
 	opts ...ociv1tarball.LayerOption,
 ) (ociv1.Layer, error) {
+	// Resolve symlinks, because filepath.Walk wouldn't descend in to dirname if it is a symlink.
+	dirname, err := filepath.EvalSymlinks(dirname)
+	if err != nil {
+		return nil, err
+	}
+	if dirinfo, err := os.Stat(dirname); err != nil {
+		return nil, err
+	} else if !dirinfo.IsDir() {
+		return nil, &fs.PathError{Op: "readdir", Path: dirname, Err: syscall.ENOTDIR}
+	}
+
 	type logEntry struct {
 		Name string
 		Info fs.FileInfo
@@ -73,7 +85,7 @@ func LayerFromDir(
 		}
 	}
 
-	err := filepath.Walk(dirname, func(filename string, info fs.FileInfo, e error) error {
+	err = filepath.Walk(dirname, func(filename string, info fs.FileInfo, e error) error {
 		if e != nil {
 			return e
 		}
-- 
2.43.0


From 579044f056809cea59091b71af0c88b893796b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:18 +0000
Subject: [PATCH 10/54] fix: dir: do not loop forever if the prefix is an
 absolute path

A prefix starting with a slash allocated memory until it ran out of it,
and one ending with a slash resulted in a duplicate entry.
---
 pkg/dir/dir.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index 19ca01d..2fbcc7a 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -64,6 +64,10 @@ func LayerFromDir(
 		if prefix.Mode == 0 {
 			prefix.Mode = 0o755
 		}
+		prefix.DirName = path.Clean(prefix.DirName)
+		if !fs.ValidPath(prefix.DirName) {
+			return nil, &fs.PathError{Op: "prefix", Path: prefix.DirName, Err: fs.ErrInvalid}
+		}
 		var dirs []string
 		for dir := prefix.DirName; dir != "."; dir = path.Dir(dir) {
 			dirs = append(dirs, dir)
-- 
2.43.0


From 3dbfbab07b76b741d9658bed21062364da22930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:53 +0000
Subject: [PATCH 11/54] fix: fsutil: ignore all of the timestamps when
 comparing layers

---
 pkg/fsutil/diff.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/fsutil/diff.go b/pkg/fsutil/diff.go
index a58e213..60ae4ed 100644
--- a/pkg/fsutil/diff.go
+++ b/pkg/fsutil/diff.go
@@ -35,10 +35,29 @@ func readersEqual(a, b io.Reader) (equal bool, err error) {
 	return true, nil
 }
 
+func withoutTimestamps(records map[string]string) map[string]string {
+	ret := make(map[string]string, len(records))
+	for k, v := range records {
+		switch k {
+		case "mtime", "atime", "ctime":
+			// skip
+		default:
+			ret[k] = v
+		}
+	}
+	return ret
+}
+
 func headersEqualExceptTimestamps(a, b tar.Header) bool {
 	b.ModTime = a.ModTime
 	b.AccessTime = a.AccessTime
-	b.ModTime = a.ModTime
+	b.ChangeTime = a.ChangeTime
+
+	// Whether there are PAX records (and whether that makes it the PAX format) might come down to
+	// the timestamps.
+	b.Format = a.Format
+	a.PAXRecords = withoutTimestamps(a.PAXRecords)
+	b.PAXRecords = withoutTimestamps(b.PAXRecords)
 
 	return reflect.DeepEqual(a, b)
 }
-- 
2.43.0


From 690e427d370d2a9c3c6a5982fe88aae4c3835133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:41 +0000
Subject: [PATCH 12/54] fix: python: report a missing PyCompile command instead
 of crashing

---
 pkg/python/py_compile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/python/py_compile.go b/pkg/python/py_compile.go
index c70b0cf..a819f1c 100644
--- a/pkg/python/py_compile.go
+++ b/pkg/python/py_compile.go
@@ -37,6 +37,9 @@ type Compiler func(
 //
 //     plat.Compile = ExternalCompiler("python3", "-m", "compileall")
 func ExternalCompiler(cmdline ...string) (Compiler, error) {
+	if len(cmdline) == 0 {
+		return nil, fmt.Errorf("python.ExternalCompiler: no compile command given")
+	}
 	exe, err := dexec.LookPath(cmdline[0])
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3b2daa8c195715b4969414f9168c216136a5f52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:56 +0000
Subject: [PATCH 13/54] fix: image build: report an unreadable base config
 instead of crashing

---
 cmd_image_build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd_image_build.go b/cmd_image_build.go
index 4735172..686072b 100644
--- a/cmd_image_build.go
+++ b/cmd_image_build.go
@@ -159,7 +159,10 @@ func init() {
 			}
 
 			if !flags.config.IsZero() {
-				configFile, _ := img.ConfigFile()
+				configFile, err := img.ConfigFile()
+				if err != nil {
+					return err
+				}
 
 				flags.config.ApplyTo(&configFile.Config)
 
-- 
2.43.0


From 64ff18f9e39bdb7614341c4370b2bb109d600c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:15 +0000
Subject: [PATCH 14/54] fix: python: normalize the install scheme's paths

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 5 +++++
 pkg/python/pypa/bdist/misc.go                       | 4 ++--
 pkg/python/pypa/entry_points/entry_points.go        | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 4df8590..14943dd 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -316,6 +316,11 @@ func (wh *wheel) installToVFS(
 				key, path.Join(strings.TrimSuffix(distInfoDir, ".dist-info")+".data", relName))
 		}
 		newFullName := path.Join(dstDataDir, rest)
+		if newFullName == "" {
+			// It's the root directory; which doesn't get an entry of its own.
+			delete(vfs, fullName)
+			continue
+		}
 		vfsTypes[newFullName] = key
 		if err := rename(vfs, fullName, newFullName); err != nil {
 			return nil, "", fmt.Errorf("spread: %w", err)
diff --git a/pkg/python/pypa/bdist/misc.go b/pkg/python/pypa/bdist/misc.go
index c50a4d7..6423e8c 100644
--- a/pkg/python/pypa/bdist/misc.go
+++ b/pkg/python/pypa/bdist/misc.go
@@ -27,8 +27,8 @@ func sanitizePlatformForLayer(plat python.Platform) (python.Platform, error) {
 		&plat.Scheme.Data,
 	}
 	for _, pathPtr := range paths {
-		clean := strings.TrimPrefix(filepath.ToSlash(*pathPtr), "/")
-		*pathPtr = clean
+		clean := path.Clean("/" + filepath.ToSlash(*pathPtr))
+		*pathPtr = strings.TrimPrefix(clean, "/")
 	}
 
 	return plat, nil
diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index ee915cd..df79598 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -102,7 +102,7 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 				}
 				header := &tar.Header{
 					Typeflag: tar.TypeReg,
-					Name:     path.Join(plat.Scheme.Scripts[1:], key),
+					Name:     path.Join("/", plat.Scheme.Scripts, key)[1:],
 					Mode:     0o755,
 					Size:     int64(buf.Len()),
 					ModTime:  clampTime,
-- 
2.43.0


From 0ee18eb6c4e94ffdeac7fb09a68429d9bcbe22e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:20 +0000
Subject: [PATCH 15/54] fix: bdist: spread the .data directory in a
 well-defined order

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 14943dd..ba8c620 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -287,7 +287,14 @@ func (wh *wheel) installToVFS(
 	}
 	vfsTypes := make(map[string]string)
 	dataDir := path.Join(dstDir, strings.TrimSuffix(distInfoDir, ".dist-info")+".data")
+	// Iterate over a sorted snapshot, so that the result doesn't depend on Go's map order (even if
+	// files get moved on to each other, or get moved in to dataDir).
+	fullNames := make([]string, 0, len(vfs))
 	for fullName := range vfs {
+		fullNames = append(fullNames, fullName)
+	}
+	sort.Strings(fullNames)
+	for _, fullName := range fullNames {
 		if !strings.HasPrefix(fullName, dataDir+"/") {
 			continue
 		}
-- 
2.43.0


From 73066e1c49470e46c64564a51bd48c3582582ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:59 +0000
Subject: [PATCH 16/54] fix: bdist: check the integrity of files whose
 attributes say directory

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index ba8c620..6e11501 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -830,7 +830,9 @@ func (wh *wheel) integrityCheck() error {
 
 	todo := make(map[string]struct{})
 	for _, file := range wh.zip.File {
-		if file.FileInfo().IsDir() {
+		if strings.HasSuffix(file.Name, "/") {
+			// Don't use .FileInfo().IsDir(); since .installToVFS() will install this as a
+			// regular file even if its attributes claim that it's a directory.
 			continue
 		}
 		name := path.Clean(file.Name)
-- 
2.43.0


From efcee6461f218b18f3cef67028d5c0356b325066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:03 +0000
Subject: [PATCH 17/54] fix: bdist: refuse wheels that have multiple entries
 for a file

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 6e11501..e16f47a 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -828,6 +828,17 @@ func (wh *wheel) integrityCheck() error {
 		return err
 	}
 
+	seen := make(map[string]bool) // map[cleanName]isDir
+	for _, file := range wh.zip.File {
+		name, isDir := path.Clean(file.Name), strings.HasSuffix(file.Name, "/")
+		if wasDir, dup := seen[name]; dup && !(wasDir && isDir) {
+			// If we let this pass, then the file that we check and the file that we
+			// install might not be the same.
+			return fmt.Errorf("archive has multiple entries for %q", name)
+		}
+		seen[name] = isDir
+	}
+
 	todo := make(map[string]struct{})
 	for _, file := range wh.zip.File {
 		if strings.HasSuffix(file.Name, "/") {
-- 
2.43.0


From 509a62def601f82557d030d8459747e086ae436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:08 +0000
Subject: [PATCH 18/54] fix: python: refuse wheels that escape from the install
 scheme

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 3 +++
 pkg/python/pypa/entry_points/entry_points.go        | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index e16f47a..832835a 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -831,6 +831,9 @@ func (wh *wheel) integrityCheck() error {
 	seen := make(map[string]bool) // map[cleanName]isDir
 	for _, file := range wh.zip.File {
 		name, isDir := path.Clean(file.Name), strings.HasSuffix(file.Name, "/")
+		if path.IsAbs(name) || name == ".." || strings.HasPrefix(name, "../") {
+			return fmt.Errorf("archive entry is outside of the target directory: %q", file.Name)
+		}
 		if wasDir, dup := seen[name]; dup && !(wasDir && isDir) {
 			// If we let this pass, then the file that we check and the file that we
 			// install might not be the same.
diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index df79598..d330751 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -100,9 +100,16 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 				}); err != nil {
 					return fmt.Errorf("%s: %s: %w", sectionName, key, err)
 				}
+				scriptsDir := path.Join("/", plat.Scheme.Scripts)
+				scriptName := path.Join(scriptsDir, key)
+				if !strings.HasPrefix(scriptName, strings.TrimSuffix(scriptsDir, "/")+"/") ||
+					scriptName == "/" {
+					return fmt.Errorf("entry_points.txt: %q: script is outside of the scripts directory: %q",
+						sectionName, key)
+				}
 				header := &tar.Header{
 					Typeflag: tar.TypeReg,
-					Name:     path.Join("/", plat.Scheme.Scripts, key)[1:],
+					Name:     scriptName[1:],
 					Mode:     0o755,
 					Size:     int64(buf.Len()),
 					ModTime:  clampTime,
-- 
2.43.0


From 5e45d1e6c44aa4603d4e407ce2bef1a8743500ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:52 +0000
Subject: [PATCH 19/54] fix: bdist: accept wheels from a pipe, as the README
 does

---
 .../pypa/bdist/binary_distribution_format.go  |  6 ++--
 pkg/python/pypa/bdist/ioutil.go               | 33 +++++++++++++++++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 832835a..6df7d05 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -98,14 +98,14 @@ func InstallWheel(
 		return nil, fmt.Errorf("bdist.InstallWheel: validate python.Platform: %w", err)
 	}
 
-	zipReader, err := zip.OpenReader(wheelfilename)
+	zipReader, closeZip, err := openZip(wheelfilename)
 	if err != nil {
 		return nil, fmt.Errorf("bdist.Installwheel: open wheel: %w", err)
 	}
-	defer zipReader.Close()
+	defer closeZip()
 
 	wh := &wheel{ //nolint:varnamelen // same as receiver name
-		zip: &zipReader.Reader,
+		zip: zipReader,
 
 		cachedDistInfoDir: "", // don't know it yet
 	}
diff --git a/pkg/python/pypa/bdist/ioutil.go b/pkg/python/pypa/bdist/ioutil.go
index dd94628..290c5fc 100644
--- a/pkg/python/pypa/bdist/ioutil.go
+++ b/pkg/python/pypa/bdist/ioutil.go
@@ -3,6 +3,7 @@ package bdist
 import (
 	"archive/tar"
 	"archive/zip"
+	"bytes"
 	"errors"
 	"io"
 	"io/fs"
@@ -40,6 +41,38 @@ type readCloser struct {
 	io.Closer
 }
 
+// openZip is like zip.OpenReader, but also works for files that aren't seekable; such as shell
+// "<(process substitution)".
+func openZip(filename string) (*zip.Reader, func(), error) {
+	file, err := os.Open(filename)
+	if err != nil {
+		return nil, nil, err
+	}
+	closeFile := func() { _ = file.Close() }
+	info, err := file.Stat()
+	if err != nil {
+		closeFile()
+		return nil, nil, err
+	}
+	var content io.ReaderAt = file
+	size := info.Size()
+	if !info.Mode().IsRegular() {
+		contentBytes, err := io.ReadAll(file)
+		if err != nil {
+			closeFile()
+			return nil, nil, err
+		}
+		content = bytes.NewReader(contentBytes)
+		size = int64(len(contentBytes))
+	}
+	reader, err := zip.NewReader(content, size)
+	if err != nil {
+		closeFile()
+		return nil, nil, err
+	}
+	return reader, closeFile, nil
+}
+
 type zipEntry struct {
 	header zip.FileHeader
 	open   func() (io.ReadCloser, error)
-- 
2.43.0


From 1088f82decf4e6816679cdfddf20dce5fc531ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:56 +0000
Subject: [PATCH 20/54] fix: python: make the metadata of compiled .pyc files
 reproducible

---
 pkg/python/py_compile.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/python/py_compile.go b/pkg/python/py_compile.go
index a819f1c..878186c 100644
--- a/pkg/python/py_compile.go
+++ b/pkg/python/py_compile.go
@@ -1,6 +1,7 @@
 package python
 
 import (
+	"archive/tar"
 	"context"
 	"fmt"
 	"io"
@@ -177,8 +178,19 @@ func ExternalCompiler(cmdline ...string) (Compiler, error) {
 			if err != nil {
 				return err
 			}
+			// Don't let the mode depend on our umask, nor the timestamp on the current time.
+			modTime := clampTime
+			if modTime.IsZero() {
+				modTime = info.ModTime()
+			}
 			ret = append(ret, &fsutil.InMemFileReference{
-				FileInfo:  info,
+				FileInfo: (&tar.Header{
+					Typeflag: tar.TypeReg,
+					Name:     fullname,
+					Mode:     0o644,
+					Size:     int64(len(content)),
+					ModTime:  modTime,
+				}).FileInfo(),
 				MFullName: fullname,
 				MContent:  content,
 			})
-- 
2.43.0


From d5dcbac37b15528db955b02cf36341713288ff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:01 +0000
Subject: [PATCH 21/54] fix: entry_points: if a script is in both sections, be
 consistent about which wins

---
 pkg/python/pypa/entry_points/entry_points.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index d330751..aa5b467 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -69,12 +69,18 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 			return err
 		}
 
-		interesting := map[string]string{
-			"console_scripts": plat.ConsoleShebang,
-			"gui_scripts":     plat.GraphicalShebang,
+		// This is an ordered list instead of a map, so that if the same script is in both
+		// sections then it is well-defined which one wins.
+		interesting := []struct {
+			sectionName string
+			shebang     string
+		}{
+			{"console_scripts", plat.ConsoleShebang},
+			{"gui_scripts", plat.GraphicalShebang},
 		}
 
-		for sectionName, shebang := range interesting {
+		for _, item := range interesting {
+			sectionName, shebang := item.sectionName, item.shebang
 			sectionData, ok := configData[sectionName]
 			if !ok {
 				continue
-- 
2.43.0


From 6539ff58fb7e7719da0b9a1267bc8fa8d9a829ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:05 +0000
Subject: [PATCH 22/54] fix: entry_points: import the top-level name of a
 dotted function reference

---
 pkg/python/pypa/entry_points/entry_points.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index aa5b467..e3410b5 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -27,7 +27,7 @@ var (
 # -*- coding: utf-8 -*-
 import re
 import sys
-from {{ .Module }} import {{ .Func }}
+from {{ .Module }} import {{ .ImportName }}
 if __name__ == '__main__':
     sys.argv[0] = re.sub(r'(-script\.pyw|\.exe)?$', '', sys.argv[0])
     sys.exit({{ .Func }}())
-- 
2.43.0


From a3041a483c231fffdc8630be9bd8a0c43e9e6a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:26 +0000
Subject: [PATCH 23/54] fix: entry_points: if two names mean the same script,
 be consistent about which wins

---
 pkg/python/pypa/entry_points/entry_points.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index e3410b5..c0a79d3 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -10,6 +10,7 @@ import (
 	"fmt"
 	"path"
 	"regexp"
+	"sort"
 	"strings"
 	"text/template"
 	"time"
@@ -85,7 +86,13 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 			if !ok {
 				continue
 			}
-			for key, val := range sectionData {
+			keys := make([]string, 0, len(sectionData))
+			for key := range sectionData {
+				keys = append(keys, key)
+			}
+			sort.Strings(keys)
+			for _, key := range keys {
+				val := sectionData[key]
 				m := reFuncRef.FindStringSubmatch(val)
 				if m == nil {
 					return fmt.Errorf("entry_points.txt: %q: %q: not a function reference: %q",
-- 
2.43.0


From 38380d1dceaef362f83dc100fecd3aceceaf4bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:53 +0000
Subject: [PATCH 24/54] fix: direct_url: escape strings the way that Python's
 json.dumps does

---
 pkg/python/pypa/direct_url/json.go | 47 ++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/pkg/python/pypa/direct_url/json.go b/pkg/python/pypa/direct_url/json.go
index cfb50d3..0dfabb5 100644
--- a/pkg/python/pypa/direct_url/json.go
+++ b/pkg/python/pypa/direct_url/json.go
@@ -4,9 +4,43 @@ import (
 	"bytes"
 	"encoding/json"
 	"errors"
+	"fmt"
 	"io"
+	"unicode/utf16"
 )
 
+// writeString encodes a string the way that Python stdlib `json.dumps` does; which (unlike
+// `json.Marshal`) doesn't escape HTML-special characters, but does escape everything that isn't
+// printable ASCII.
+func writeString(dst *bytes.Buffer, str string) {
+	dst.WriteByte('"')
+	for _, char := range str {
+		switch {
+		case char == '"' || char == '\\':
+			dst.WriteByte('\\')
+			dst.WriteRune(char)
+		case char == '\n':
+			dst.WriteString(`\n`)
+		case char == '\r':
+			dst.WriteString(`\r`)
+		case char == '\t':
+			dst.WriteString(`\t`)
+		case char == '\f':
+			dst.WriteString(`\f`)
+		case char == '\b':
+			dst.WriteString(`\b`)
+		case ' ' <= char && char <= '~':
+			dst.WriteRune(char)
+		case char > 0xFFFF:
+			r1, r2 := utf16.EncodeRune(char)
+			fmt.Fprintf(dst, `\u%04x\u%04x`, r1, r2)
+		default:
+			fmt.Fprintf(dst, `\u%04x`, char)
+		}
+	}
+	dst.WriteByte('"')
+}
+
 // jsonDumps is like `json.Marshal`, but mimics the formatting of Python stdlib `json.dumps`.
 func jsonDumps(typedObj interface{}) ([]byte, error) {
 	// First, round-trip through JSON first to discard any type information.
@@ -70,13 +104,16 @@ func jsonDumps(typedObj interface{}) ([]byte, error) {
 				_, _ = dst.WriteString(", ")
 			}
 
-			bs, err := json.Marshal(tok)
-			if err != nil {
-				return nil, err
+			if str, isStr := tok.(string); isStr {
+				writeString(&dst, str)
+			} else {
+				bs, err := json.Marshal(tok)
+				if err != nil {
+					return nil, err
+				}
+				_, _ = dst.Write(bs)
 			}
 
-			_, _ = dst.Write(bs)
-
 			completeObj()
 		}
 	}
-- 
2.43.0


From 7493142456cbe3ba8b9cc2d029fa49e640099fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:38 +0000
Subject: [PATCH 25/54] fix: bdist: refuse files that would replace a directory
 of the install scheme

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 6df7d05..9ae8bed 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -322,6 +322,10 @@ func (wh *wheel) installToVFS(
 			return nil, "", fmt.Errorf("unsupported wheel data type %q: %q",
 				key, path.Join(strings.TrimSuffix(distInfoDir, ".dist-info")+".data", relName))
 		}
+		if rest == "" && !vfs[fullName].IsDir() {
+			return nil, "", fmt.Errorf("wheel data %q is not a directory: %q",
+				key, path.Join(strings.TrimSuffix(distInfoDir, ".dist-info")+".data", relName))
+		}
 		newFullName := path.Join(dstDataDir, rest)
 		if newFullName == "" {
 			// It's the root directory; which doesn't get an entry of its own.
@@ -834,6 +838,9 @@ func (wh *wheel) integrityCheck() error {
 		if path.IsAbs(name) || name == ".." || strings.HasPrefix(name, "../") {
 			return fmt.Errorf("archive entry is outside of the target directory: %q", file.Name)
 		}
+		if name == "." && !isDir {
+			return fmt.Errorf("archive entry would replace the target directory: %q", file.Name)
+		}
 		if wasDir, dup := seen[name]; dup && !(wasDir && isDir) {
 			// If we let this pass, then the file that we check and the file that we
 			// install might not be the same.
-- 
2.43.0


From 7ff1a3798a8c3756298eaca82b9fb242bf88970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:25 +0000
Subject: [PATCH 26/54] fix: bdist: refuse wheels that use a file as a
 directory

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 9ae8bed..d4d84d6 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -148,7 +148,12 @@ func InstallWheel(
 	// ensure that parent directories exist
 	for filename := range vfs {
 		for dir := path.Dir(filename); dir != "."; dir = path.Dir(dir) {
-			if _, exists := vfs[dir]; !exists {
+			if parent, exists := vfs[dir]; exists {
+				if !parent.IsDir() {
+					return nil, fmt.Errorf("bdist.InstallWheel: generate layer: parent of %q is not a directory",
+						filename)
+				}
+			} else {
 				vfs[dir] = &fsutil.InMemFileReference{
 					FileInfo: (&tar.Header{
 						Typeflag: tar.TypeDir,
-- 
2.43.0


From 39024776eb2daaed546ad7d83578d196c9b1393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:14 +0000
Subject: [PATCH 27/54] fix: pep440: do not drop the first character of
 versions in < and > clauses

---
 pkg/python/pep440/02_version_specifiers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index a8da602..abc84ae 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -172,10 +172,10 @@ func parseSpecifierClause(str string) (SpecifierClause, error) {
 		str = str[2:]
 	case strings.HasPrefix(str, "<"):
 		ret.CmpOp = CmpOpLT
-		str = str[2:]
+		str = str[1:]
 	case strings.HasPrefix(str, ">"):
 		ret.CmpOp = CmpOpGT
-		str = str[2:]
+		str = str[1:]
 	case strings.HasPrefix(str, "==="):
 		return ret, fmt.Errorf("specifiers with === are not supported; versions must be PEP 440 compliant")
 	default:
-- 
2.43.0


From d3a4e76a0c6995df0acbb1f94863167d0ce03f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:19 +0000
Subject: [PATCH 28/54] fix: pep440: keep the .* when formatting a prefix-match
 clause

---
 pkg/python/pep440/02_version_specifiers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index abc84ae..5b45605 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -214,7 +214,11 @@ func (spec SpecifierClause) String() string {
 	if !ok {
 		panic(fmt.Errorf("invalid CmpOp: %d", spec.CmpOp))
 	}
-	return opStr + spec.Version.String()
+	str := opStr + spec.Version.String()
+	if spec.CmpOp == CmpOpPrefixMatch || spec.CmpOp == CmpOpPrefixExclude {
+		str += ".*"
+	}
+	return str
 }
 
 func (spec SpecifierClause) Match(ver Version) bool {
-- 
2.43.0


From bd94a78d0216941e67b3a065c7d58e002f9451d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:24 +0000
Subject: [PATCH 29/54] fix: pep440: <= matches local versions, > does not
 match local versions or post-releases

---
 pkg/python/pep440/02_version_specifiers.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index 5b45605..34e2ea7 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -481,7 +481,9 @@ func matchPrefixExclude(spec, ver Version) bool {
 //
 // Local version identifiers are NOT permitted in this version specifier.
 func matchLE(spec, ver Version) bool {
-	return spec.Cmp(ver) >= 0
+	// Since the spec cannot have a local-part, ignore that of the candidate (the same as
+	// matchStrictMatch does); a local version of the specified version is OK.
+	return spec.PublicVersion.Cmp(ver.PublicVersion) >= 0
 }
 
 func matchGE(spec, ver Version) bool {
@@ -523,7 +525,19 @@ func matchLT(spec, ver Version) bool {
 }
 
 func matchGT(spec, ver Version) bool {
-	return spec.Cmp(ver) < 0
+	// This ignores any local-part of the candidate, so it never matches a local version of the
+	// specified version.
+	if spec.PublicVersion.Cmp(ver.PublicVersion) >= 0 {
+		return false
+	}
+	if ver.Post != nil && spec.Post == nil && spec.Dev == nil {
+		// Don't match a post-release of the specified version.
+		base := ver.PublicVersion
+		base.Post = nil
+		base.Dev = nil
+		return spec.PublicVersion.Cmp(base) != 0
+	}
+	return true
 }
 
 //
-- 
2.43.0


From ddba0ae4a00233392e56d62d79de91b7bf6cd033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:47 +0000
Subject: [PATCH 30/54] fix: pep440, pep592: prefer the versions that are not
 excluded

---
 pkg/python/pep440/02_version_specifiers.go | 2 +-
 pkg/python/pep592/yank.go                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index 34e2ea7..affa31e 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -644,7 +644,7 @@ func (spec Specifier) Select(choices []Version, exclusionBehavior ExclusionBehav
 	var bestExcluded *Version
 	for _, choice := range choices {
 		if spec.Match(choice) {
-			if exclusionBehavior == nil || !exclusionBehavior.Allow(choice) {
+			if exclusionBehavior == nil || exclusionBehavior.Allow(choice) {
 				if best == nil || best.Cmp(choice) < 0 {
 					val := choice
 					best = &val
diff --git a/pkg/python/pep592/yank.go b/pkg/python/pep592/yank.go
index 98e6eab..86784c1 100644
--- a/pkg/python/pep592/yank.go
+++ b/pkg/python/pep592/yank.go
@@ -36,5 +36,5 @@ func ExcludeYanked(links []pep503.FileLink) pep440.ExclusionBehavior {
 
 func (e excludeYanked) Allow(v pep440.Version) bool {
 	_, yanked := e.yankedVersions[v.String()]
-	return yanked
+	return !yanked
 }
-- 
2.43.0


From c65aec649616cc4195b4c846742565a2705f66fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:40 +0000
Subject: [PATCH 31/54] fix: pep440: do not mangle large numbers in local
 versions

---
 pkg/python/pep440/01_version_scheme.go | 19 +++++++++++++++++++
 pkg/python/pep440/03_tail.go           | 14 +++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep440/01_version_scheme.go b/pkg/python/pep440/01_version_scheme.go
index 4a23f24..d4549bf 100644
--- a/pkg/python/pep440/01_version_scheme.go
+++ b/pkg/python/pep440/01_version_scheme.go
@@ -236,7 +236,15 @@ func cmpLocalSegment(a, b *intstr.IntOrString) int {
 	case a.Type == intstr.Int && b.Type == intstr.Int:
 		return int(a.IntVal - b.IntVal)
 	case a.Type == intstr.String && b.Type == intstr.String:
+		// Numbers that don't fit in an int32 are stored as strings of digits.
+		aNum, bNum := isNumeric(a.StrVal), isNumeric(b.StrVal)
 		switch {
+		case aNum && !bNum:
+			return 1
+		case !aNum && bNum:
+			return -1
+		case aNum && bNum && len(a.StrVal) != len(b.StrVal):
+			return len(a.StrVal) - len(b.StrVal)
 		case a.StrVal < b.StrVal:
 			return -1
 		case a.StrVal > b.StrVal:
@@ -244,14 +252,25 @@ func cmpLocalSegment(a, b *intstr.IntOrString) int {
 		}
 		return 0
 	case a.Type == intstr.Int && b.Type == intstr.String:
+		if isNumeric(b.StrVal) {
+			return -1
+		}
 		return 1
 	case a.Type == intstr.String && b.Type == intstr.Int:
+		if isNumeric(a.StrVal) {
+			return 1
+		}
 		return -1
 	default:
 		panic("should not happen: invalid intstr.IntOrString")
 	}
 }
 
+// isNumeric returns whether a local version segment consists entirely of ASCII digits.
+func isNumeric(str string) bool {
+	return str != "" && strings.Trim(str, "0123456789") == ""
+}
+
 func cmpLocal(a, b LocalVersion) int {
 	for i := 0; i < len(a.Local) || i < len(b.Local); i++ {
 		var aSeg, bSeg *intstr.IntOrString
diff --git a/pkg/python/pep440/03_tail.go b/pkg/python/pep440/03_tail.go
index 7c2afd0..a317173 100644
--- a/pkg/python/pep440/03_tail.go
+++ b/pkg/python/pep440/03_tail.go
@@ -715,12 +715,24 @@ func parseVersion(str string) (*Version, error) {
 		return strings.ContainsRune("-_.", r)
 	})
 	for _, part := range localParts {
-		ver.Local = append(ver.Local, intstr.Parse(strings.ToLower(part)))
+		ver.Local = append(ver.Local, parseLocalSegment(strings.ToLower(part)))
 	}
 
 	return &ver, nil
 }
 
+// parseLocalSegment is like intstr.Parse, but doesn't mangle numbers that don't fit in the int32 of
+// an intstr.IntOrString; it keeps those as strings of digits.
+func parseLocalSegment(str string) intstr.IntOrString {
+	if !isNumeric(str) {
+		return intstr.FromString(str)
+	}
+	if n, err := strconv.ParseInt(str, 10, 32); err == nil {
+		return intstr.FromInt(int(n))
+	}
+	return intstr.FromString(strings.TrimLeft(str, "0"))
+}
+
 //
 //
 // Copyright
-- 
2.43.0


From c1b2c3f7a5229e6b0a286470b7c38fdf31db1ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:45 +0000
Subject: [PATCH 32/54] fix: pep440: permit vertical tabs as surrounding
 whitespace

---
 pkg/python/pep440/03_tail.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/03_tail.go b/pkg/python/pep440/03_tail.go
index a317173..4b9a53c 100644
--- a/pkg/python/pep440/03_tail.go
+++ b/pkg/python/pep440/03_tail.go
@@ -568,7 +568,7 @@ import (
 //         r"^\s*" + VERSION_PATTERN + r"\s*$",
 //         re.VERBOSE | re.IGNORECASE,
 //     )
-var reVersion = regexp.MustCompile(`(?i)^\s*` + regexp.MustCompile(`(?:\s+|#.*)`).ReplaceAllString(`
+var reVersion = regexp.MustCompile(`(?i)^[\s\v]*` + regexp.MustCompile(`(?:\s+|#.*)`).ReplaceAllString(`
 		v?
 		(?:
 		    (?:(?P<epoch>[0-9]+)!)?                           # epoch
@@ -597,7 +597,7 @@ var reVersion = regexp.MustCompile(`(?i)^\s*` + regexp.MustCompile(`(?:\s+|#.*)`
 		    )?
 		)
 		(?:\+(?P<local>[a-z0-9]+(?:[-_\.][a-z0-9]+)*))?       # local version
-	`, ``) + `\s*$`)
+	`, ``) + `[\s\v]*$`)
 
 func parseVersion(str string) (*Version, error) {
 	match := reVersion.FindStringSubmatch(str)
-- 
2.43.0


From da8694b6922f6cf41f70a178dd1c11b3dbd6bde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:06 +0000
Subject: [PATCH 33/54] fix: pep503: download the signature instead of the file
 itself

---
 pkg/python/pep503/simple_repo_api.go | 29 ++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index fba7170..7fe365c 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -287,15 +287,36 @@ func (l FileLink) Get(ctx context.Context) ([]byte, error) {
 
 var ErrNoSignature = errors.New("no signature")
 
+// signatureURL returns the URL of the file's GPG signature: that of the file itself "with a .asc
+// appended to it", without the file's checksum.
+func (l FileLink) signatureURL() (string, error) {
+	u, err := url.Parse(l.HRef)
+	if err != nil {
+		return "", err
+	}
+	if u.RawPath != "" {
+		u.RawPath += ".asc"
+	}
+	u.Path += ".asc"
+	u.Fragment = ""
+	u.RawFragment = ""
+	return u.String(), nil
+}
+
 func (l FileLink) GetSignature(ctx context.Context) ([]byte, error) {
-	switch l.DataAttrs["data-gpg-sig"] {
-	case "false":
+	if l.DataAttrs["data-gpg-sig"] == "false" {
 		return nil, ErrNoSignature
+	}
+	sigURL, err := l.signatureURL()
+	if err != nil {
+		return nil, err
+	}
+	switch l.DataAttrs["data-gpg-sig"] {
 	case "true":
-		_, content, err := l.client.get(ctx, l.HRef)
+		_, content, err := l.client.get(ctx, sigURL)
 		return content, err
 	default:
-		_, content, err := l.client.get(ctx, l.HRef)
+		_, content, err := l.client.get(ctx, sigURL)
 		var httpErr *HTTPError
 		if err != nil && errors.As(err, &httpErr) && httpErr.StatusCode == http.StatusNotFound {
 			err = ErrNoSignature
-- 
2.43.0


From e5ded0913dc032ceb6186234c69430c4dabda514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:11 +0000
Subject: [PATCH 34/54] fix: python: VersionInfo: include the serial of
 pre-releases

---
 pkg/python/platform.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/python/platform.go b/pkg/python/platform.go
index ffb6860..32f31d2 100644
--- a/pkg/python/platform.go
+++ b/pkg/python/platform.go
@@ -43,11 +43,11 @@ func (vi VersionInfo) PEP440() (*pep440.Version, error) {
 	}
 	switch vi.ReleaseLevel {
 	case "alpha":
-		ret.Pre = &pep440.PreRelease{L: "a", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "a", N: vi.Serial}
 	case "beta":
-		ret.Pre = &pep440.PreRelease{L: "b", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "b", N: vi.Serial}
 	case "candidate":
-		ret.Pre = &pep440.PreRelease{L: "rc", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "rc", N: vi.Serial}
 	case "final":
 		ret.Pre = nil
 	default:
-- 
2.43.0


From 288205388318f8c4111d640bbf42b362fd84371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:17 +0000
Subject: [PATCH 35/54] fix: configparser: inline comments must be preceded by
 whitespace

---
 pkg/python/configparser.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/python/configparser.go b/pkg/python/configparser.go
index deb6eb5..05bdf16 100644
--- a/pkg/python/configparser.go
+++ b/pkg/python/configparser.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 type Config map[string]ConfigSection
@@ -42,6 +43,20 @@ func NewConfigParser() *ConfigParser {
 	}
 }
 
+// inlineCommentIndex returns the index in the line of the first comment that begins with the given
+// prefix, or -1 if there is no such comment.  An inline comment must be preceded by whitespace.
+func inlineCommentIndex(line, commentPrefix string) int {
+	for i := range line {
+		if !strings.HasPrefix(line[i:], commentPrefix) {
+			continue
+		}
+		if prev, _ := utf8.DecodeLastRuneInString(line[:i]); i == 0 || unicode.IsSpace(prev) {
+			return i
+		}
+	}
+	return -1
+}
+
 func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 	config := make(Config)
 
@@ -75,8 +90,7 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 		// strip comments and whitespace
 		commentStart := len(line)
 		for _, commentPrefix := range p.InlineCommentPrefixes {
-			index := strings.Index(line, commentPrefix)
-			if index > 0 && index < commentStart {
+			if index := inlineCommentIndex(line, commentPrefix); index >= 0 && index < commentStart {
 				commentStart = index
 			}
 		}
-- 
2.43.0


From 37acc08ce6cb007f669b39769d7d32bd13b67fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:22 +0000
Subject: [PATCH 36/54] fix: configparser: an empty line ends the value if
 EmptyLinesInValues is false

---
 pkg/python/configparser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/python/configparser.go b/pkg/python/configparser.go
index 05bdf16..95b586f 100644
--- a/pkg/python/configparser.go
+++ b/pkg/python/configparser.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -110,7 +111,8 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 					curVal = append(curVal, value)
 				}
 			} else {
-				curIndentLevel = 0
+				// an empty line marks the end of the value
+				curIndentLevel = math.MaxInt
 			}
 			continue
 		}
-- 
2.43.0


From 65cb586d16d78e42d4a5139bb7e8af29a233e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:26 +0000
Subject: [PATCH 37/54] fix: configparser: recognize section headers and refuse
 empty names the same as Python does

---
 pkg/python/configparser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/python/configparser.go b/pkg/python/configparser.go
index 95b586f..7f1d3b6 100644
--- a/pkg/python/configparser.go
+++ b/pkg/python/configparser.go
@@ -128,11 +128,11 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 		case curVal != nil && lineIndentLevel > 0 && lineIndentLevel > curIndentLevel:
 			// continuation line
 			curVal = append(curVal, value)
-		case strings.HasPrefix(value, "[") && strings.HasSuffix(value, "]"):
-			// section header
+		case strings.HasPrefix(value, "[") && strings.LastIndex(value, "]") > 1:
+			// section header; ignore anything after the "]"
 			flushKV()
 			curIndentLevel = lineIndentLevel
-			sectName := strings.TrimSuffix(strings.TrimPrefix(value, "["), "]")
+			sectName := value[1:strings.LastIndex(value, "]")]
 			if _, exists := config[sectName]; !exists {
 				config[sectName] = make(ConfigSection)
 			} else if p.Strict {
@@ -156,7 +156,7 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 					}
 				}
 			}
-			if sepPos == len(value) {
+			if sepPos == 0 || sepPos == len(value) {
 				return nil, fmt.Errorf("line %d: invalid line: %q", lineno, value)
 			}
 			curKey = p.OptionTransform(strings.TrimSpace(value[:sepPos]))
-- 
2.43.0


From ac5fa92679a7a66e7c2dc09b0bc4c77c5c02a0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:31 +0000
Subject: [PATCH 38/54] fix: stat: correct the values of the FileAttribute
 constants

---
 pkg/python/stat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/stat.go b/pkg/python/stat.go
index fa75b76..83dd890 100644
--- a/pkg/python/stat.go
+++ b/pkg/python/stat.go
@@ -197,7 +197,7 @@ const (
 	FileAttributeNormal    StatFileAttribute = StatFileAttribute(_DOSUnused7)
 
 	// 1<<8 through 1<<15
-	FileAttributeTemporary StatFileAttribute = 1 << (8 + iota)
+	FileAttributeTemporary StatFileAttribute = 1 << iota
 	FileAttributeSparseFile
 	FileAttributeReparsePoint
 	FileAttributeCompressed
-- 
2.43.0


From 273122247a9dd7e770f9559d589bd72f3d435901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:07 +0000
Subject: [PATCH 39/54] fix: pyinspect: ImageFS: accept any absolute path, as
 os.Stat does

---
 pkg/python/pyinspect/fs_image.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pyinspect/fs_image.go b/pkg/python/pyinspect/fs_image.go
index d22343c..f17b75f 100644
--- a/pkg/python/pyinspect/fs_image.go
+++ b/pkg/python/pyinspect/fs_image.go
@@ -100,7 +100,12 @@ func (sys *ImageFS) Stat(name string) (FileInfo, error) {
 	if err := sys.ensureInitialized(); err != nil {
 		return nil, err
 	}
-	fileinfo, err := fs.Stat(sys.imgFS, name[1:])
+	// Turn it in to an io/fs path.
+	fsName := strings.TrimPrefix(path.Clean(name), "/")
+	if fsName == "" {
+		fsName = "."
+	}
+	fileinfo, err := fs.Stat(sys.imgFS, fsName)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 13ad490dfa932a6823693ffadd64788216252095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:05 +0000
Subject: [PATCH 40/54] fix: pep440: avoid an overflow when comparing
 post-releases

---
 pkg/python/pep440/01_version_scheme.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/python/pep440/01_version_scheme.go b/pkg/python/pep440/01_version_scheme.go
index d4549bf..d8d3c58 100644
--- a/pkg/python/pep440/01_version_scheme.go
+++ b/pkg/python/pep440/01_version_scheme.go
@@ -527,15 +527,16 @@ func cmpPreRelease(a, b PublicVersion) int {
 //    pre-release by incrementing the numeric component.
 
 func cmpPostRelease(a, b PublicVersion) int {
-	aPost := -1
-	if a.Post != nil {
-		aPost = *a.Post
-	}
-	bPost := -1
-	if b.Post != nil {
-		bPost = *b.Post
+	switch {
+	case a.Post == nil && b.Post == nil:
+		return 0
+	case a.Post == nil && b.Post != nil:
+		return -1
+	case a.Post != nil && b.Post == nil:
+		return 1
+	default:
+		return (*a.Post) - (*b.Post)
 	}
-	return aPost - bPost
 }
 
 //
-- 
2.43.0


From c638cf7a6b6acb7c3029496a3f58b958146121c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:32 +0000
Subject: [PATCH 41/54] fix: among otherwise equal wheels, take the one with
 the highest build tag

SelectWheel took the lowest one (no build tag before any), so that a
rebuild that was published to replace a wheel was never used.
---
 pkg/python/pypa/simple_repo_api/pypa_repo_api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
index 3092c07..318fdd5 100644
--- a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
+++ b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
@@ -95,11 +95,11 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		ret := links[0]
 		return &ret, nil
 	}
-	// 3. Finally, tie-break by build tag.
+	// 3. Finally, tie-break by build tag; a higher build tag is a newer build.
 	sort.Slice(links, func(i, j int) bool {
 		iInfo, _ := bdist.ParseFilename(links[i].Text)
 		jInfo, _ := bdist.ParseFilename(links[j].Text)
-		return iInfo.BuildTag.Cmp(jInfo.BuildTag) < 0
+		return iInfo.BuildTag.Cmp(jInfo.BuildTag) > 0
 	})
 	ret := links[0]
 	return &ret, nil
-- 
2.43.0


From 241e593a10c1578eecb8c0a87de623f04a577337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:02 +0000
Subject: [PATCH 42/54] fix: do not select the wheel of another project

SelectWheel took any wheel that the project's page lists, whatever
project the wheel is of.
---
 pkg/python/pypa/simple_repo_api/pypa_repo_api.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
index 318fdd5..7083816 100644
--- a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
+++ b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
@@ -6,7 +6,9 @@ package simple_repo_api
 import (
 	"context"
 	"fmt"
+	"regexp"
 	"sort"
+	"strings"
 
 	"github.com/datawire/ocibuild/pkg/python/pep425"
 	"github.com/datawire/ocibuild/pkg/python/pep440"
@@ -40,6 +42,11 @@ func NewClient(python *pep440.Version, supportedTags pep425.Installer) Client {
 	}
 }
 
+// normalize normalizes a package name, as specified by PEP 503.
+func normalize(str string) string {
+	return strings.ToLower(regexp.MustCompile("[-_.]+").ReplaceAllLiteralString(str, "-"))
+}
+
 func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.Specifier) (*pep503.FileLink, error) {
 	// 0. Filter by pkgname
 	links, err := c.ListPackageFiles(ctx, pkgname)
@@ -55,6 +62,9 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		if err != nil {
 			continue
 		}
+		if normalize(linkInfo.Distribution) != normalize(pkgname) {
+			continue
+		}
 		if !c.SupportedTags.Supports(linkInfo.CompatibilityTag) {
 			continue
 		}
-- 
2.43.0


From 840fb5acc740660cb5c97e1a45274e8b8d4da910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:20 +0000
Subject: [PATCH 43/54] fix: pep503: do not skip the checksum if the URL's
 fragment is malformed

---
 pkg/python/pep503/simple_repo_api.go | 31 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index 7fe365c..5f34d48 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -89,22 +89,21 @@ func (c Client) get(ctx context.Context, requestURL string) (_ *url.URL, _ []byt
 		return nil, nil, &HTTPError{Status: resp.Status, StatusCode: resp.StatusCode}
 	}
 	if u, err := url.Parse(requestURL); err == nil && u.Fragment != "" {
-		if keyvals, err := url.ParseQuery(u.Fragment); err == nil {
-			for key, vals := range keyvals {
-				for _, val := range vals {
-					newHasher := python.HashlibAlgorithmsGuaranteed[key]
-					if newHasher == nil {
-						continue
-					}
-					hasher := newHasher()
-					hasher.Write(content)
-					sum := hex.EncodeToString(hasher.Sum(nil))
-					if sum != val {
-						//nolint:lll // error string
-						return nil, nil, fmt.Errorf("checksum mismatch: %s: expected=%s actual=%s",
-							key, val, sum)
-					}
-				}
+		// Don't use url.ParseQuery; it drops whatever it considers to be malformed, but we
+		// mustn't skip a checksum.
+		for _, keyval := range strings.Split(u.Fragment, "&") {
+			parts := strings.SplitN(keyval, "=", 2)
+			newHasher := python.HashlibAlgorithmsGuaranteed[parts[0]]
+			if newHasher == nil || len(parts) != 2 {
+				continue
+			}
+			key, val := parts[0], parts[1]
+			hasher := newHasher()
+			hasher.Write(content)
+			sum := hex.EncodeToString(hasher.Sum(nil))
+			if sum != val {
+				return nil, nil, fmt.Errorf("checksum mismatch: %s: expected=%s actual=%s",
+					key, val, sum)
 			}
 		}
 	}
-- 
2.43.0


From 61ad9e6e29373130db8f34373c306c874a91ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:49 +0000
Subject: [PATCH 44/54] fix: do not byte-compile directories that are named
 like Python sources

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index d4d84d6..58589c3 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -365,7 +365,7 @@ func (wh *wheel) installToVFS(
 	//      enough to remove .pyc even if it is not mentioned in RECORD.)
 	var srcs []fsutil.FileReference //nolint:prealloc // 'continue' is quite likely
 	for _, file := range vfs {
-		if !strings.HasSuffix(file.Name(), ".py") {
+		if file.IsDir() || !strings.HasSuffix(file.Name(), ".py") {
 			continue
 		}
 		srcs = append(srcs, file)
-- 
2.43.0


From 7d1bdbb3c1fd8ea2903846cf03a6a95211982f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:00 +0000
Subject: [PATCH 45/54] fix: LayersEqualExceptTimestamps: a timestamp may
 decide how a long name is encoded

---
 pkg/fsutil/diff.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/fsutil/diff.go b/pkg/fsutil/diff.go
index 60ae4ed..e5cff5c 100644
--- a/pkg/fsutil/diff.go
+++ b/pkg/fsutil/diff.go
@@ -35,11 +35,13 @@ func readersEqual(a, b io.Reader) (equal bool, err error) {
 	return true, nil
 }
 
-func withoutTimestamps(records map[string]string) map[string]string {
+// withoutBasicRecords drops the PAX records that the tar.Reader has already merged in to the other
+// fields of the header.
+func withoutBasicRecords(records map[string]string) map[string]string {
 	ret := make(map[string]string, len(records))
 	for k, v := range records {
 		switch k {
-		case "mtime", "atime", "ctime":
+		case "path", "linkpath", "size", "uid", "gid", "uname", "gname", "mtime", "atime", "ctime":
 			// skip
 		default:
 			ret[k] = v
@@ -53,11 +55,12 @@ func headersEqualExceptTimestamps(a, b tar.Header) bool {
 	b.AccessTime = a.AccessTime
 	b.ChangeTime = a.ChangeTime
 
-	// Whether there are PAX records (and whether that makes it the PAX format) might come down to
-	// the timestamps.
+	// Whether there are PAX records (and whether that makes it the PAX format, and so whether other
+	// things that don't fit in to the plain header are PAX records too) might come down to the
+	// timestamps.
 	b.Format = a.Format
-	a.PAXRecords = withoutTimestamps(a.PAXRecords)
-	b.PAXRecords = withoutTimestamps(b.PAXRecords)
+	a.PAXRecords = withoutBasicRecords(a.PAXRecords)
+	b.PAXRecords = withoutBasicRecords(b.PAXRecords)
 
 	return reflect.DeepEqual(a, b)
 }
-- 
2.43.0


From bc300df37f3bc9d94be87e407dd990520424cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:38 +0000
Subject: [PATCH 46/54] fix: squash: resolve ".." in symlink targets relative
 to where the symlink before it leads

---
 pkg/squash/vfs.go | 53 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index eb1576b..d52528c 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -5,6 +5,7 @@ package squash
 
 import (
 	"archive/tar"
+	"errors"
 	"io/fs"
 	"path"
 	"sort"
@@ -80,7 +81,57 @@ func (f *fsfile) readlink(create, followLinks bool, numLinks *int) (*fsfile, err
 	if *numLinks > maxLinks {
 		return nil, ErrLoop
 	}
-	return fsGetLimited(f.parent, f.header.Linkname, create, followLinks, numLinks)
+	dir, pathname, err := f.parent.walkDotDot(f.header.Linkname, create, numLinks)
+	if err != nil {
+		return nil, err
+	}
+	return fsGetLimited(dir, pathname, create, followLinks, numLinks)
+}
+
+// walkDotDot resolves everything in pathname up to and including the last "..", because if "foo" is
+// a symlink then "foo/../bar" isn't the same thing as "bar".  It returns the directory that that
+// leads to, and what remains of pathname.
+//
+// If create is true, then components that aren't in the layers are assumed to be directories.
+func (f *fsfile) walkDotDot(pathname string, create bool, numLinks *int) (*fsfile, string, error) {
+	dir := f
+	if path.IsAbs(pathname) {
+		for dir.parent != dir {
+			dir = dir.parent
+		}
+	}
+	parts := strings.Split(pathname, "/")
+	lastDotDot := len(parts) - 1
+	for lastDotDot >= 0 && parts[lastDotDot] != ".." {
+		lastDotDot--
+	}
+	var rest []string
+	for i, part := range parts {
+		switch {
+		case part == "" || part == ".":
+			// do nothing
+		case part == ".." && len(rest) > 0:
+			rest = rest[:len(rest)-1]
+		case part == "..":
+			dir = dir.parent
+		case i > lastDotDot || len(rest) > 0:
+			rest = append(rest, part)
+		default:
+			child, err := dir.getLimited(part, false, true, numLinks)
+			if err == nil && child.header != nil && child.header.Typeflag != tar.TypeDir {
+				err = ErrNotDir
+			}
+			switch {
+			case err == nil:
+				dir = child
+			case create && !errors.Is(err, ErrLoop):
+				rest = append(rest, part)
+			default:
+				return nil, "", err
+			}
+		}
+	}
+	return dir, strings.Join(rest, "/"), nil
 }
 
 // getLimited is like Get, but also takes the number of symlinks that have been followed so far.
-- 
2.43.0


From 56ce58f79b05c3ddd7c1a45b402e5fd8aa7b4502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:43 +0000
Subject: [PATCH 47/54] fix: entry_points: close entry_points.txt after reading
 it

---
 pkg/python/pypa/entry_points/entry_points.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index c0a79d3..81f5186 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -64,6 +64,9 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 		if err != nil {
 			return err
 		}
+		defer func() {
+			_ = configReader.Close()
+		}()
 
 		configData, err := configParser.Parse(configReader)
 		if err != nil {
-- 
2.43.0


From 3cb67234cbbfae74887e424d5d46460b5a75a131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:48 +0000
Subject: [PATCH 48/54] fix: entry_points: accept function references with
 non-ASCII identifiers

---
 pkg/python/pypa/entry_points/entry_points.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 81f5186..4d5a893 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -43,7 +43,7 @@ if __name__ == '__main__':
 
 	// This is lax on validation of the [extras] part, but that's OK; we don't care about that
 	// part.
-	reFuncRef = regexp.MustCompile(`^(?P<callable>\w+([:.]\w+)*)(?:\s*\[.*\])?$`)
+	reFuncRef = regexp.MustCompile(`^(?P<callable>[\pL\pN_]+([:.][\pL\pN_]+)*)(?:\s*\[.*\])?$`)
 )
 
 func CreateScripts(plat python.Platform) bdist.PostInstallHook {
-- 
2.43.0


From 9eaeb92f01cc16c2ab49ec114d73dd1c13a2b61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:09 +0000
Subject: [PATCH 49/54] fix: dir: hard links have no contents of their own, so
 their size is zero

---
 pkg/dir/dir.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index 2fbcc7a..d55824b 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -120,6 +120,7 @@ func LayerFromDir(
 			if os.SameFile(entry.Info, info) {
 				header.Typeflag = tar.TypeLink
 				header.Linkname = entry.Name
+				header.Size = 0 // the contents belong to the linked-to entry
 				break
 			}
 		}
-- 
2.43.0


From 81bc050e757d42e42dd207767c1d94244ad50759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:28 +0000
Subject: [PATCH 50/54] fix: ExternalCompiler: concurrent calls must not share
 the backing array of their arguments

---
 pkg/python/py_compile.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/python/py_compile.go b/pkg/python/py_compile.go
index 878186c..45a72a7 100644
--- a/pkg/python/py_compile.go
+++ b/pkg/python/py_compile.go
@@ -129,11 +129,13 @@ func ExternalCompiler(cmdline ...string) (Compiler, error) {
 		}
 
 		// Run the compiler
-		cmd := dexec.CommandContext(ctx, exe, append(cmdline[1:],
+		args := append([]string(nil), cmdline[1:]...) // copy, so that concurrent calls don't share it
+		args = append(args,
 			"-s", tmpdir, // strip-dir for the in-.pyc filename
 			"-p", "/", // prepend-dir for the in-.pyc filename
 			tmpdir, // directory to compile
-		)...)
+		)
+		cmd := dexec.CommandContext(ctx, exe, args...)
 
 		cmd.Env = append(os.Environ(),
 			"PYTHONHASHSEED=0")
-- 
2.43.0


From 6f1372e011a365b2c81effaf5f784cc0557b44b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:33 +0000
Subject: [PATCH 51/54] fix: simple_repo_api: consider all of the files of a
 version, even if the version is spelled differently

---
 pkg/python/pypa/simple_repo_api/pypa_repo_api.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
index 7083816..e20810d 100644
--- a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
+++ b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
@@ -54,7 +54,6 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		return nil, err
 	}
 	// 1. Filter by version
-	version2links := make(map[string][]pep503.FileLink)
 	var whlLinks []pep503.FileLink //nolint:prealloc // 'continue' is quite likely
 	var versions []pep440.Version  //nolint:prealloc // 'continue' is quite likely
 	for _, link := range links {
@@ -68,7 +67,6 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		if !c.SupportedTags.Supports(linkInfo.CompatibilityTag) {
 			continue
 		}
-		version2links[linkInfo.Version.String()] = append(version2links[linkInfo.Version.String()], link)
 		whlLinks = append(whlLinks, link)
 		versions = append(versions, linkInfo.Version)
 	}
@@ -81,7 +79,13 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 	if selectedVersion == nil {
 		return nil, fmt.Errorf("no matches for %q %q", pkgname, version.String())
 	}
-	links = version2links[selectedVersion.String()]
+	links = nil
+	for i, link := range whlLinks {
+		// Don't compare the strings; "1.0" and "1.0.0" are the same version.
+		if versions[i].Cmp(*selectedVersion) == 0 {
+			links = append(links, link)
+		}
+	}
 	if len(links) == 1 {
 		ret := links[0]
 		return &ret, nil
-- 
2.43.0


From b949a4ccb94433346ab35c406816d0549e3c1e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:38 +0000
Subject: [PATCH 52/54] fix: pep592: a version is yanked no matter how it is
 spelled

---
 pkg/python/pep592/yank.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pkg/python/pep592/yank.go b/pkg/python/pep592/yank.go
index 86784c1..763f733 100644
--- a/pkg/python/pep592/yank.go
+++ b/pkg/python/pep592/yank.go
@@ -15,26 +15,29 @@ func IsYanked(l pep503.FileLink) bool {
 }
 
 type excludeYanked struct {
-	yankedVersions map[string]struct{}
+	yankedVersions []pep440.Version
 }
 
 func ExcludeYanked(links []pep503.FileLink) pep440.ExclusionBehavior {
-	ret := excludeYanked{
-		yankedVersions: make(map[string]struct{}),
-	}
+	var ret excludeYanked
 	for _, link := range links {
 		if IsYanked(link) {
 			fileInfo, err := bdist.ParseFilename(link.Text)
 			if err != nil {
 				continue
 			}
-			ret.yankedVersions[fileInfo.Version.String()] = struct{}{}
+			ret.yankedVersions = append(ret.yankedVersions, fileInfo.Version)
 		}
 	}
 	return ret
 }
 
 func (e excludeYanked) Allow(v pep440.Version) bool {
-	_, yanked := e.yankedVersions[v.String()]
-	return !yanked
+	for _, yanked := range e.yankedVersions {
+		// Don't compare the strings; "1.0" and "1.0.0" are the same version.
+		if yanked.Cmp(v) == 0 {
+			return false
+		}
+	}
+	return true
 }
-- 
2.43.0


From 84fe572a72916b34d54799f1d1b1231bc3ca95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:31 +0000
Subject: [PATCH 53/54] fix: cliutil: wrap the texts of help topics for the
 column that they are printed at

The column is that of the command path, not that of the name, so the text was
wrapped too wide, and its further lines were not below its first.
---
 pkg/cliutil/cobra_tmpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/cliutil/cobra_tmpl.go b/pkg/cliutil/cobra_tmpl.go
index 0d2cf3e..dde996f 100644
--- a/pkg/cliutil/cobra_tmpl.go
+++ b/pkg/cliutil/cobra_tmpl.go
@@ -77,7 +77,7 @@ Global Flags:
 Additional help topics:
 {{- range .Commands }}
   {{- if .IsAdditionalHelpTopicCommand }}
-    {{- "\n" }}  {{ rpad .CommandPath .CommandPathPadding }}   {{ .Short | wrapIndent (add .NamePadding 5) getTerminalWidth }}
+    {{- "\n" }}  {{ rpad .CommandPath .CommandPathPadding }}   {{ .Short | wrapIndent (add .CommandPathPadding 5) getTerminalWidth }}
   {{- end }}
 {{- end }}
 {{- end }}
-- 
2.43.0


From b8f8d5db93ecfa2cd21a6189dbbc577494a0d21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:02 +0000
Subject: [PATCH 54/54] fix: squash: keep the contents of sparse files, and
 ignore global PAX headers

Files in the old GNU sparse format were written out with that type although the
holes are filled in by then, so that readers took them to be empty.  Global PAX
headers were taken to be files, and so showed up in the filesystem, or were
refused if the name (which means nothing) is absolute.
---
 pkg/squash/readlayer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/squash/readlayer.go b/pkg/squash/readlayer.go
index 1971833..7b4e111 100644
--- a/pkg/squash/readlayer.go
+++ b/pkg/squash/readlayer.go
@@ -42,6 +42,15 @@ func parseLayer(layer ociv1.Layer, omitContent bool) (*layerFS, error) {
 			return nil, fmt.Errorf("reading tar: %w", err)
 		}
 
+		switch header.Typeflag {
+		case tar.TypeXGlobalHeader:
+			// It isn't a file, and its name means nothing; as container runtimes do, ignore it.
+			continue
+		case tar.TypeGNUSparse:
+			// tarReader fills in the holes, so from here on it's a file like any other.
+			header.Typeflag = tar.TypeReg
+		}
+
 		cleanName := path.Clean(header.Name)
 		if strings.HasPrefix(cleanName, "/") || strings.HasPrefix(cleanName, "../") || cleanName == ".." {
 			return nil, fmt.Errorf("layer contains file outside of image root: %q", header.Name)
-- 
2.43.0

