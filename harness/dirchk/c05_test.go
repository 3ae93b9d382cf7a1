package dirchk

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/datawire/ocibuild/pkg/dir"
	"pgregory.net/rapid"

	"verif.local/harness/h"
	"verif.local/harness/lm"
)

type dirCase struct {
	tr     tree
	prefix *dir.Prefix
	chown  *dir.Ownership
	clamp  int64
}

func (d dirCase) String() string {
	s := fmt.Sprintf("clamp=%d", d.clamp)
	if d.prefix != nil {
		s += fmt.Sprintf(" prefix=%+v", *d.prefix)
	}
	if d.chown != nil {
		s += fmt.Sprintf(" chown=%+v", *d.chown)
	}
	return s + " tree: " + d.tr.String()
}

func genDirCase(c *h.C) (dirCase, map[string]int) {
	d := dirCase{clamp: int64(h.Pick(c.T, "clamp", 1500000000, 1000000, 1700000000, 0, 3000000000, -100000000))}
	var stats map[string]int
	d.tr, stats = genTree(c.T, d.clamp, 10)
	if rapid.Bool().Draw(c.T, "prefix") {
		d.prefix = &dir.Prefix{
			DirName: h.Pick(c.T, "prefixname", "usr", "usr/local/bin", "a", "a/b", "usr/local/", "./usr//lib", "p/"+strings.Repeat("long", 30)+"/q"),
			Mode:    h.Pick(c.T, "prefixmode", 0, 0o700, 0o755, 0o1777),
			Ownership: dir.Ownership{
				UID: h.Pick(c.T, "puid", 0, 5), UName: h.Pick(c.T, "puname", "root", "pu", ""),
				GID: h.Pick(c.T, "pgid", 0, 6), GName: h.Pick(c.T, "pgname", "root", "pg", ""),
			},
		}
	}
	if rapid.Bool().Draw(c.T, "chown") {
		d.chown = &dir.Ownership{
			UID: h.Pick(c.T, "cuid", -1, 0, 7, 100000), UName: h.Pick(c.T, "cuname", "", "root", "cu"),
			GID: h.Pick(c.T, "cgid", -1, 0, 8), GName: h.Pick(c.T, "cgname", "", "root", "cg"),
		}
	}
	return d, stats
}

// build runs the code under test on a copy of the parameters.
func (d dirCase) build(root string) ([]byte, error) {
	var prefix *dir.Prefix
	if d.prefix != nil {
		p := *d.prefix
		prefix = &p
	}
	var chown *dir.Ownership
	if d.chown != nil {
		o := *d.chown
		chown = &o
	}
	l, err := dir.LayerFromDir(root, prefix, chown, time.Unix(d.clamp, 0))
	if err != nil {
		return nil, err
	}
	return lm.Bytes(l)
}

// expect is the filesystem that the layer must hold, with times clamped and cut to seconds.
func (d dirCase) expect() *lm.FS {
	var l lm.Layer
	base := ""
	if d.prefix != nil {
		base = path.Clean(d.prefix.DirName)
		var dirs []string
		for p := base; p != "."; p = path.Dir(p) {
			dirs = append([]string{p}, dirs...)
		}
		mode := d.prefix.Mode
		if mode == 0 {
			mode = 0o755
		}
		for _, p := range dirs {
			l = append(l, lm.Entry{Name: p, Type: tar.TypeDir, Mode: int64(mode), UID: d.prefix.UID, GID: d.prefix.GID,
				Uname: d.prefix.UName, Gname: d.prefix.GName, MTime: time.Unix(d.clamp, 0)})
		}
	}
	for _, p := range sortedKeys(d.tr) {
		e := d.tr.entry(p)
		e.Name = path.Join(base, p)
		if o := d.chown; o != nil {
			if o.UID >= 0 {
				e.UID = o.UID
			}
			if o.UName != "" {
				e.Uname = o.UName
			}
			if o.GID >= 0 {
				e.GID = o.GID
			}
			if o.GName != "" {
				e.Gname = o.GName
			}
		}
		if e.MTime.After(time.Unix(d.clamp, 0)) {
			e.MTime = time.Unix(d.clamp, 0)
		}
		l = append(l, e)
	}
	// not lm.Flatten: names that look like whiteouts are ordinary files here
	fsys := lm.NewFS()
	for _, e := range l {
		fsys.Put(e)
	}
	return fsys
}

// literal reads a layer without giving names that look like whiteouts a meaning.
func literal(l lm.Layer) (*lm.FS, error) {
	fsys := lm.NewFS()
	seen := map[string]bool{}
	for _, e := range l {
		n := path.Clean(e.Name)
		if seen[n] {
			return nil, fmt.Errorf("%q appears twice", n)
		}
		seen[n] = true
		if path.IsAbs(n) || n == ".." || strings.HasPrefix(n, "../") {
			return nil, fmt.Errorf("%q is outside of the root", n)
		}
		if d := path.Dir(n); d != "." && !seen[d] {
			return nil, fmt.Errorf("%q comes before its directory", n)
		}
		if e.Type == tar.TypeLink {
			if !seen[path.Clean(e.Link)] {
				return nil, fmt.Errorf("hard link %q comes before %q", n, e.Link)
			}
			tgt, err := fsys.Lookup(e.Link)
			if err != nil || tgt.IsDir() {
				return nil, fmt.Errorf("hard link %q to %q: %v", n, e.Link, err)
			}
			fsys.PutNode(n, tgt.Ino)
			continue
		}
		fsys.Put(e)
	}
	return fsys, nil
}

// diffTimes compares the filesystems; a time may be rounded to either of the neighbouring seconds
// (but never beyond the clamp).
func diffTimes(want, got *lm.FS, clamp int64) string {
	if d := lm.Diff(want, got, lm.DiffOpts{NoTimes: true}); d != "" {
		return d
	}
	for _, p := range want.Paths() {
		a, _ := want.Lookup(p)
		b, _ := got.Lookup(p)
		w, g := a.Ino.E.MTime, b.Ino.E.MTime
		if g.Unix() != w.Unix() && !(w.Nanosecond() > 0 && g.Unix() == w.Unix()+1) {
			return fmt.Sprintf("%s: time %d.%09d vs %d", p, w.Unix(), w.Nanosecond(), g.Unix())
		}
		if g.Unix() > clamp {
			return fmt.Sprintf("%s: time %d is after the clamp", p, g.Unix())
		}
	}
	return ""
}

func TestC05(t *testing.T) {
	lm.Huge = 20
	defer func() { lm.Huge = 0 }()
	p := h.Start(t, "C05", "the tree has at least three files, one of them in a subdirectory or a link")
	p.Run("faithful", 3000, 30000, func(c *h.C) {
		d, stats := genDirCase(c)
		tmp, done := h.TempDir()
		defer done()
		c.Journal(d.String())
		root := filepath.Join(tmp, "root")
		d.tr.write(root, sortedKeys(d.tr), time.Unix(d.clamp-50, 0))
		bs, err := d.build(root)
		if err != nil {
			c.Fatalf("LayerFromDir: %v\n%s", err, d)
		}
		l, err := lm.Parse(bs)
		if err != nil {
			c.Fatalf("not a readable tar: %v\n%s", err, d)
		}
		got, err := literal(l)
		if err != nil {
			c.Fatalf("%v\n%s\nlayer: %s", err, d, l)
		}
		if diff := diffTimes(d.expect(), got, d.clamp); diff != "" {
			c.Fatalf("directory vs layer: %s\n%s\nlayer: %s", diff, d, l)
		}
		// files that are hard links of each other stay so, and only those
		groups := map[string]string{}
		base := ""
		if d.prefix != nil {
			base = path.Clean(d.prefix.DirName)
		}
		for _, q := range sortedKeys(d.tr) {
			n := d.tr[q]
			if n.Kind != 'f' && n.Kind != 'h' {
				continue
			}
			id := q
			if n.Kind == 'h' {
				id = n.Link
			}
			nd, _ := got.Lookup(path.Join(base, q))
			key := fmt.Sprintf("%p", nd.Ino)
			if prev, ok := groups[key]; ok && prev != id {
				c.Fatalf("%q became a hard link of %q\n%s\nlayer: %s", q, prev, d, l)
			}
			groups[key] = id
		}
		ids := map[string]int{}
		for _, id := range groups {
			ids[id]++
		}
		for id, n := range ids {
			if n > 1 {
				c.Fatalf("the hard links of %q are no longer hard links\n%s\nlayer: %s", id, d, l)
			}
		}
		// the same tree made in another order, and read again, gives the same bytes
		if len(d.tr) > 1 {
			root2 := filepath.Join(tmp, "other")
			d.tr.write(root2, rapid.Permutation(sortedKeys(d.tr)).Draw(c.T, "order"), time.Unix(d.clamp+1000, 0))
			bs2, err := d.build(root2)
			if err != nil {
				c.Fatalf("LayerFromDir: %v\n%s", err, d)
			}
			if !bytes.Equal(bs, bs2) {
				l2, _ := lm.Parse(bs2)
				c.Fatalf("two copies of one directory give different layers\n%s\n1st: %s\n2nd: %s", d, l, l2)
			}
		}
		c.LabelIf(stats["hard"] > 0, "hardlink")
		c.LabelIf(stats["links"] > 0, "symlink")
		c.LabelIf(d.prefix != nil, "prefix")
		c.LabelIf(d.chown != nil, "chown")
		if len(d.tr) >= 3 && stats["dirs"]+stats["links"]+stats["hard"] > 0 {
			c.Nontrivial(d.String())
		}
	})
	// The command: flags and SOURCE_DATE_EPOCH mean what they say.
	p.Run("command", 200, 2000, func(c *h.C) {
		d, _ := genDirCase(c)
		tmp, done := h.TempDir()
		defer done()
		root := filepath.Join(tmp, "root")
		d.tr.write(root, sortedKeys(d.tr), time.Unix(d.clamp-50, 0))
		if d.chown == nil {
			d.chown = &dir.Ownership{UID: -1, GID: -1}
		}
		args := []string{"layer", "dir", "--chown-gname=" + d.chown.GName}
		// flags that have their default value may be left out
		flag := func(name, val string, isDefault bool) {
			if !isDefault || rapid.Bool().Draw(c.T, "explicit") {
				args = append(args, "--"+name+"="+val)
			}
		}
		if d.prefix != nil {
			d.prefix.Mode = 0
			flag("prefix", d.prefix.DirName, false)
			flag("prefix-uid", fmt.Sprint(d.prefix.UID), d.prefix.UID == 0)
			flag("prefix-gid", fmt.Sprint(d.prefix.GID), d.prefix.GID == 0)
			flag("prefix-uname", d.prefix.UName, d.prefix.UName == "root")
			flag("prefix-gname", d.prefix.GName, d.prefix.GName == "root")
		}
		flag("chown-uid", fmt.Sprint(d.chown.UID), d.chown.UID < 0)
		flag("chown-gid", fmt.Sprint(d.chown.GID), d.chown.GID < 0)
		flag("chown-uname", d.chown.UName, d.chown.UName == "")
		cmd := exec.Command(h.CLI(), append(args, root)...)
		cmd.Env = []string{fmt.Sprintf("SOURCE_DATE_EPOCH=%d", d.clamp), "TZ=" + h.Pick(c.T, "tz", "UTC", "Asia/Tokyo"), "TMPDIR=" + tmp}
		cmd.Dir = tmp
		var errb bytes.Buffer
		cmd.Stderr = &errb
		bs, err := cmd.Output()
		if err != nil {
			c.Fatalf("%q: %v: %s\n%s", args, err, errb.String(), d)
		}
		l, err := lm.Parse(bs)
		if err != nil {
			c.Fatalf("%q: not a readable tar: %v\n%s", args, err, d)
		}
		got, err := literal(l)
		if err != nil {
			c.Fatalf("%q: %v\n%s\nlayer: %s", args, err, d, l)
		}
		if diff := diffTimes(d.expect(), got, d.clamp); diff != "" {
			c.Fatalf("%q: directory vs layer: %s\n%s\nlayer: %s", args, diff, d, l)
		}
		if len(d.tr) > 0 {
			c.Nontrivial(fmt.Sprintf("%q %s", args, d))
		}
	})
	// However the directory is named on the command line, its contents are what counts.
	p.Run("spelling", 150, 1500, func(c *h.C) {
		d, _ := genDirCase(c)
		if len(d.tr) == 0 {
			return
		}
		tmp, done := h.TempDir()
		defer done()
		root := filepath.Join(tmp, "r", "root")
		d.tr.write(root, sortedKeys(d.tr), time.Unix(d.clamp-50, 0))
		want, err := d.build(root)
		if err != nil {
			c.Fatalf("LayerFromDir: %v\n%s", err, d)
		}
		h.Must(os.Symlink("r/root", filepath.Join(tmp, "lnk")))
		h.Must(os.Mkdir(filepath.Join(tmp, "r", "x"), 0o755))
		for _, sp := range []string{root + "/", tmp + "/r/../r/root", tmp + "//r/./root", tmp + "/lnk", tmp + "/lnk/", tmp + "/r/x/../root/."} {
			got, err := d.build(sp)
			if err != nil || !bytes.Equal(got, want) {
				l, _ := lm.Parse(got)
				c.Fatalf("directory named as %q: %v, layer %s\n%s", strings.TrimPrefix(sp, tmp), err, l, d)
			}
		}
		c.Nontrivial(d.String())
	})
	// Below the directory there may be several filesystems, which number their files alike.
	p.Run("mounts", 60, 400, func(c *h.C) {
		if exec.Command("unshare", "-Urm", "sh", "-c", "mount -t tmpfs none /mnt").Run() != nil {
			c.Label("no mounts possible here")
			return
		}
		tmp, done := h.TempDir()
		defer done()
		h.Must(os.Mkdir(filepath.Join(tmp, "root"), 0o755))
		d := dirCase{tr: tree{}, chown: &dir.Ownership{UID: -1, GID: -1}, clamp: 1500000000}
		script := "set -e\ncd root\n"
		touch := ""
		put := func(p, how string, n *node) {
			n.MTime = time.Unix(d.clamp+int64(h.Pick(c.T, "dt", 0, -7, -100, 9)), 0)
			d.tr[p] = n
			script += how + "\n"
			if n.Kind != 'h' {
				touch = fmt.Sprintf("touch -h -d @%d %s\n", n.MTime.Unix(), p) + touch
				if n.Kind != 'l' {
					script += fmt.Sprintf("chmod %o %s\n", n.Mode, p)
				}
			}
		}
		hard := 0
		for m := h.Int(c.T, "mounts", 1, 3); m > 0; m-- {
			mnt := h.Pick(c.T, "mnt", "a", "b", "c", "b/d")
			if d.tr[mnt] != nil {
				continue
			}
			if mnt == "b/d" && d.tr["b"] == nil {
				put("b", "mkdir b", &node{Kind: 'd', Mode: 0o755})
			}
			put(mnt, fmt.Sprintf("mkdir %s\nmount -t tmpfs none %s", mnt, mnt), &node{Kind: 'd', Mode: 0o750})
			var regs []string
			for n := h.Int(c.T, "files", 1, 5); n > 0; n-- {
				p := fmt.Sprintf("%s/f%d", mnt, n)
				switch k := h.Weighted(c.T, "kind", 4, 3, 1); {
				case k == 1 && len(regs) > 0:
					of := regs[h.Int(c.T, "of", 0, len(regs)-1)]
					put(p, fmt.Sprintf("ln %s %s", of, p), &node{Kind: 'h', Link: of})
					hard++
				case k == 2:
					put(p, fmt.Sprintf("ln -s f1 %s", p), &node{Kind: 'l', Link: "f1", Mode: 0o777})
				default:
					body := h.Pick(c.T, "body", "", "one", "two", strings.Repeat("x", 700))
					put(p, fmt.Sprintf("printf %%s '%s' >%s", body, p), &node{Kind: 'f', Body: body, Mode: uint32(h.Pick(c.T, "mode", 0o644, 0o600, 0o755))})
					regs = append(regs, p)
				}
			}
		}
		cmd := exec.Command("unshare", "-Urm", "sh", "-c", script+touch+"cd ..\nexec \"$1\" layer dir root", "sh", h.CLI())
		cmd.Env = []string{fmt.Sprintf("SOURCE_DATE_EPOCH=%d", d.clamp), "PATH=/usr/bin:/bin:/usr/sbin:/sbin", "TMPDIR=" + tmp}
		cmd.Dir = tmp
		var errb bytes.Buffer
		cmd.Stderr = &errb
		bs, err := cmd.Output()
		if err != nil {
			c.Fatalf("%s: %v %s", script, err, errb.String())
		}
		l, err := lm.Parse(bs)
		if err != nil {
			c.Fatalf("%s: not a readable tar: %v", script, err)
		}
		got, err := literal(l)
		if err != nil {
			c.Fatalf("%s: %v: %s", script, err, l)
		}
		if diff := diffTimes(d.expect(), got, d.clamp); diff != "" {
			c.Fatalf("%s: directory vs layer: %s\nlayer: %s", script, diff, l)
		}
		if len(d.tr) > 4 && hard > 0 {
			c.Nontrivial(script)
		}
	})
	// A prefix outside of the root is refused (and does not keep the program busy forever).
	p.Run("bad-prefix", 60, 300, func(c *h.C) {
		d, _ := genDirCase(c)
		tmp, done := h.TempDir()
		defer done()
		root := filepath.Join(tmp, "root")
		d.tr.write(root, sortedKeys(d.tr), time.Unix(d.clamp-50, 0))
		d.prefix = &dir.Prefix{DirName: h.Pick(c.T, "bad", "/usr", "/", "//usr/lib", "../x", "..", "a/../..")}
		var err error
		c.Guard("LayerFromDir with prefix "+d.prefix.DirName, 60*time.Second, func() { _, err = d.build(root) })
		if err == nil {
			c.Fatalf("prefix %q is accepted", d.prefix.DirName)
		}
		c.Nontrivial(d.String())
	})
	p.Run("not-a-directory", 60, 300, func(c *h.C) {
		tmp, done := h.TempDir()
		defer done()
		f := filepath.Join(tmp, h.Pick(c.T, "n", "file", "x.y"))
		h.Must(os.WriteFile(f, []byte(lm.GenBody(c.T)), 0o644))
		if l, err := dir.LayerFromDir(f, nil, nil, time.Unix(1, 0)); err == nil {
			pl, _ := lm.ParseLayer(l)
			c.Fatalf("LayerFromDir of a regular file gives the layer %s", pl)
		}
		c.Nontrivial(filepath.Base(f))
	})
	// Errors: something that cannot be read must not be left out silently.
	p.Run("missing", 60, 300, func(c *h.C) {
		tmp, done := h.TempDir()
		defer done()
		name := filepath.Join(tmp, h.Pick(c.T, "n", "nope", "a/b", "x"))
		if _, err := dir.LayerFromDir(name, nil, nil, time.Unix(1, 0)); !errors.Is(err, os.ErrNotExist) {
			c.Fatalf("LayerFromDir of a missing directory: %v", err)
		}
		c.Nontrivial(filepath.Base(name) + io.EOF.Error())
	})
}
