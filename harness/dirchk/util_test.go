package dirchk

import (
	"archive/tar"
	"fmt"
	"os"
	"os/user"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"pgregory.net/rapid"

	"verif.local/harness/h"
	"verif.local/harness/lm"
)

func sortedKeys[V any](m map[string]V) []string {
	ret := make([]string, 0, len(m))
	for k := range m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}

// node is one file of a generated directory tree.
type node struct {
	Kind  byte // 'd' 'f' 'l' (symlink) 'h' (hard link) 'p' (fifo)
	Body  string
	Link  string
	Mode  uint32
	UID   int
	GID   int
	MTime time.Time
}

// tree maps clean relative paths to files; every parent is in it.
type tree map[string]*node

func (t tree) String() string {
	var sb strings.Builder
	for _, p := range sortedKeys(t) {
		n := t[p]
		fmt.Fprintf(&sb, "%c %q mode=%o own=%d:%d t=%d.%09d", n.Kind, p, n.Mode, n.UID, n.GID, n.MTime.Unix(), n.MTime.Nanosecond())
		switch n.Kind {
		case 'f':
			fmt.Fprintf(&sb, " body[%d]", len(n.Body))
		case 'l', 'h':
			fmt.Fprintf(&sb, " -> %q", n.Link)
		}
		sb.WriteString("; ")
	}
	return sb.String()
}

var treeNames = []string{"a", "b", "c", "d", "a.b", "a-b", ".h", "x y", "é", "\xff\xfe", "A", "-n", ".wh.a", "new\nline", "#", "\\", "a'b", "..x", "...", "a..", "~"}

func genMTime(t *rapid.T, clamp int64) time.Time {
	sec := clamp + int64(h.Pick(t, "dt", 0, -1, 1, -100000, 100000, -1000000000, 5, -2))
	ns := h.Pick(t, "ns", 0, 1, 499999999, 500000000, 999999999)
	if sec < 0 {
		sec = 0
	}
	return time.Unix(sec, int64(ns))
}

var isRoot = os.Getuid() == 0

func genTree(t *rapid.T, clamp int64, max int) (tree, map[string]int) {
	tr := tree{}
	stats := map[string]int{}
	dirs := []string{""}
	var regs []string
	min, wide := 0, h.OneIn(t, "wide", 60)
	if wide {
		min, max = 15, 15+5*max
	}
	h.Repeat(t, "files", min, max, func(t *rapid.T) {
		parent := dirs[h.Int(t, "parent", 0, len(dirs)-1)]
		base := h.Pick(t, "base", treeNames...)
		if wide {
			base = fmt.Sprint("n", h.Int(t, "num", 0, 150))
		}
		if h.OneIn(t, "long", 25) {
			base = strings.Repeat(h.Pick(t, "ch", "n", "ö"), h.Pick(t, "len", 49, 50, 51, 99, 100, 101, 120, 127)) // tar name field limits
		}
		p := path.Join(parent, base)
		if tr[p] != nil {
			return
		}
		n := &node{Mode: uint32(h.Pick(t, "mode", 0o644, 0o755, 0o600, 0o4755, 0o2755, 0o1777, 0o444, 0o7777)), MTime: genMTime(t, clamp)}
		if isRoot {
			n.UID = h.Pick(t, "uid", 0, 0, 1, 65534, 12345, 3000000)
			n.GID = h.Pick(t, "gid", 0, 0, 1, 65534, 12345)
		} else {
			n.UID, n.GID = os.Getuid(), os.Getgid()
		}
		switch h.Weighted(t, "kind", 6, 5, 3, 2, 1) {
		case 0:
			n.Kind = 'f'
			n.Body = lm.GenBody(t)
			regs = append(regs, p)
		case 1:
			n.Kind = 'd'
			dirs = append(dirs, p)
			stats["dirs"]++
		case 2:
			n.Kind = 'l'
			n.Link = h.Pick(t, "tgt", "a", "b/c", "../a", "/etc/passwd", "nowhere", ".", "a/../b", "./x", "é", "..x", strings.Repeat("long/", 21)+"x", strings.Repeat("é", 60))
			n.Mode = 0o777
			stats["links"]++
		case 3:
			if len(regs) == 0 {
				return
			}
			n.Kind = 'h'
			n.Link = regs[h.Int(t, "of", 0, len(regs)-1)]
			stats["hard"]++
		case 4:
			n.Kind = 'p'
		}
		tr[p] = n
	})
	return tr, stats
}

// lutimes sets the times of a file without following symlinks.
func lutimes(name string, mtime, atime time.Time) error {
	ts := [2]syscall.Timespec{syscall.NsecToTimespec(atime.UnixNano()), syscall.NsecToTimespec(mtime.UnixNano())}
	p, err := syscall.BytePtrFromString(name)
	if err != nil {
		return err
	}
	const atFDCWD, noFollow = -100, 0x100
	cwd := atFDCWD
	_, _, e := syscall.Syscall6(syscall.SYS_UTIMENSAT, uintptr(cwd), uintptr(unsafe.Pointer(p)), uintptr(unsafe.Pointer(&ts[0])), noFollow, 0, 0)
	if e != 0 {
		return e
	}
	return nil
}

// write makes the tree below root; order (a permutation of the paths) says in which order the
// files are made, as far as parents allow.
func (t tree) write(root string, order []string, atime time.Time) {
	h.Must(os.MkdirAll(root, 0o755))
	made := map[string]bool{}
	var mk func(p string)
	mk = func(p string) {
		if p == "." || p == "" || made[p] {
			return
		}
		made[p] = true
		mk(path.Dir(p))
		n := t[p]
		full := filepath.Join(root, p)
		switch n.Kind {
		case 'd':
			h.Must(os.Mkdir(full, 0o700))
		case 'f':
			h.Must(os.WriteFile(full, []byte(n.Body), 0o600))
		case 'l':
			h.Must(os.Symlink(n.Link, full))
		case 'h':
			mk(n.Link)
			h.Must(os.Link(filepath.Join(root, n.Link), full))
		case 'p':
			h.Must(syscall.Mkfifo(full, 0o600))
		}
	}
	for _, p := range order {
		mk(p)
	}
	// metadata last, deepest first
	ps := sortedKeys(t)
	for i := len(ps) - 1; i >= 0; i-- {
		p := ps[i]
		n := t[p]
		if n.Kind == 'h' {
			continue
		}
		full := filepath.Join(root, p)
		if isRoot {
			h.Must(os.Lchown(full, n.UID, n.GID))
		}
		if n.Kind != 'l' {
			h.Must(syscall.Chmod(full, n.Mode))
		}
		h.Must(lutimes(full, n.MTime, atime))
	}
}

var nameCache = map[string]string{}

func uname(uid int) string {
	k := "u" + strconv.Itoa(uid)
	if v, ok := nameCache[k]; ok {
		return v
	}
	v := ""
	if u, err := user.LookupId(strconv.Itoa(uid)); err == nil {
		v = u.Username
	}
	nameCache[k] = v
	return v
}

func gname(gid int) string {
	k := "g" + strconv.Itoa(gid)
	if v, ok := nameCache[k]; ok {
		return v
	}
	v := ""
	if g, err := user.LookupGroupId(strconv.Itoa(gid)); err == nil {
		v = g.Name
	}
	nameCache[k] = v
	return v
}

// entry is the tar entry that the file should become (hard links as separate copies).
func (t tree) entry(p string) lm.Entry {
	n := t[p]
	if n.Kind == 'h' {
		n = t[n.Link]
	}
	e := lm.Entry{Name: p, Mode: int64(n.Mode), UID: n.UID, GID: n.GID, Uname: uname(n.UID), Gname: gname(n.GID), MTime: n.MTime}
	switch n.Kind {
	case 'd':
		e.Type = tar.TypeDir
	case 'f':
		e.Type, e.Body = tar.TypeReg, n.Body
	case 'l':
		e.Type, e.Link = tar.TypeSymlink, n.Link
	case 'p':
		e.Type = tar.TypeFifo
	}
	return e
}
