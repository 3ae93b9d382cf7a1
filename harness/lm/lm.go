// Package lm is a reference model of OCI layers and of applying them on top of each other (the
// image-spec's "layer.md"), written independently of the code under test.
package lm

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"path"
	"sort"
	"strconv"
	"strings"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
	ocitypes "github.com/google/go-containerregistry/pkg/v1/types"

	"verif.local/harness/h"
)

// Entry is one tar entry.
type Entry struct {
	Name         string
	Type         byte
	Link         string
	Body         string
	Mode         int64
	UID, GID     int
	Uname, Gname string
	MTime        time.Time
	Major, Minor int64
	Xattr        string // value of a PAX xattr record
	Format       tar.Format
	Sparse       byte // how a regular file's holes are encoded: 0 (not), 'S' (old GNU), 'x' (GNU's in PAX records)
}

func (e Entry) String() string {
	s := fmt.Sprintf("%c %q mode=%o own=%d:%d", e.Type, e.Name, e.Mode, e.UID, e.GID)
	if e.Link != "" {
		s += fmt.Sprintf(" -> %q", e.Link)
	}
	if e.Type == tar.TypeReg {
		if len(e.Body) > 300000 {
			s += fmt.Sprintf(" body[%d]=%.20q...", len(e.Body), e.Body)
		} else {
			s += fmt.Sprintf(" body=%q", e.Body)
		}
	}
	if e.Xattr != "" {
		s += " xattr=" + e.Xattr
	}
	if e.Sparse != 0 {
		s += fmt.Sprintf(" sparse=%c", e.Sparse)
	}
	return s
}

// Layer is a list of entries in archive order.
type Layer []Entry

func (l Layer) String() string {
	parts := make([]string, len(l))
	for i, e := range l {
		parts[i] = e.String()
	}
	return "[" + strings.Join(parts, "; ") + "]"
}

const xattrKey = "SCHILY.xattr.user.v"

// Header makes the tar header of an entry.
func (e Entry) Header() *tar.Header {
	if e.Type == tar.TypeXGlobalHeader {
		return &tar.Header{Name: e.Name, Typeflag: e.Type, PAXRecords: map[string]string{"comment": e.Body, "mtime": "1"}}
	}
	hdr := &tar.Header{
		Name: e.Name, Typeflag: e.Type, Linkname: e.Link, Mode: e.Mode,
		Uid: e.UID, Gid: e.GID, Uname: e.Uname, Gname: e.Gname, ModTime: e.MTime,
		Devmajor: e.Major, Devminor: e.Minor, Format: e.Format,
	}
	if e.Xattr != "" {
		hdr.PAXRecords = map[string]string{xattrKey: e.Xattr}
	}
	if e.Type == tar.TypeReg {
		hdr.Size = int64(len(e.Body))
	}
	return hdr
}

// retype changes the type and, if fn is not nil, more of the last header before size bytes of contents.
func retype(bs []byte, size int, typ byte, fn func(blk []byte)) []byte {
	at := len(bs) - (size+511)/512*512 - 512
	blk := bs[at : at+512]
	blk[156] = typ
	if fn != nil {
		fn(blk)
	}
	sum := 256
	for i, b := range blk {
		if i < 148 || i >= 156 {
			sum += int(b)
		}
	}
	copy(blk[148:156], fmt.Sprintf("%06o\x00 ", sum))
	return bs
}

// sparse writes the entry in one of the ways that archive/tar reads but does not write.
func (e Entry) sparse(out *bytes.Buffer) {
	// the longest run of zeros is the hole
	at, n := 0, 0
	for i := 0; i < len(e.Body); i++ {
		j := i
		for j < len(e.Body) && e.Body[j] == 0 {
			j++
		}
		if j-i > n {
			at, n = i, j-i
		}
		if j > i {
			i = j
		}
	}
	head, tail := e.Body[:at], e.Body[at+n:]
	write := func(hdr *tar.Header, content string, typ byte, fn func([]byte)) {
		var buf bytes.Buffer
		w := tar.NewWriter(&buf)
		hdr.Typeflag, hdr.Size = tar.TypeReg, int64(len(content))
		h.Must(w.WriteHeader(hdr))
		_, err := w.Write([]byte(content))
		h.Must(err)
		h.Must(w.Flush())
		out.Write(retype(buf.Bytes(), len(content), typ, fn))
	}
	if e.Sparse == 'S' {
		hdr := e.Header()
		hdr.Format, hdr.PAXRecords = tar.FormatGNU, nil
		write(hdr, head+tail, 'S', func(blk []byte) {
			for i, v := range []int{0, len(head), at + n, len(tail)} {
				copy(blk[386+12*i:], fmt.Sprintf("%011o\x00", v))
			}
			copy(blk[483:], fmt.Sprintf("%011o\x00", len(e.Body)))
		})
		return
	}
	records := ""
	add := func(k, v string) {
		n := len(k) + len(v) + 3
		size := n + len(strconv.Itoa(n))
		if len(strconv.Itoa(size)) != len(strconv.Itoa(n)) {
			size++
		}
		records += fmt.Sprintf("%d %s=%s\n", size, k, v)
	}
	add("GNU.sparse.major", "1")
	add("GNU.sparse.minor", "0")
	add("GNU.sparse.name", e.Name)
	add("GNU.sparse.realsize", strconv.Itoa(len(e.Body)))
	add("uid", strconv.Itoa(e.UID))
	add("gid", strconv.Itoa(e.GID))
	add("mtime", strconv.FormatInt(e.MTime.Unix(), 10))
	if e.Xattr != "" {
		add(xattrKey, e.Xattr)
	}
	write(&tar.Header{Name: "PaxHeaders.0/x", Mode: 0o644}, records, 'x', nil)
	m := fmt.Sprintf("2\n0\n%d\n%d\n%d\n", len(head), at+n, len(tail))
	m += strings.Repeat("\x00", 512-len(m))
	write(&tar.Header{Name: "GNUSparseFile.0/x", Mode: e.Mode, Uname: e.Uname, Gname: e.Gname}, m+head+tail, tar.TypeReg, nil)
}

// Tar serialises the layer.
func (l Layer) Tar() []byte {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	for _, e := range l {
		if e.Type == tar.TypeReg && e.Sparse != 0 {
			h.Must(w.Flush())
			e.sparse(&buf)
			continue
		}
		if err := w.WriteHeader(e.Header()); err != nil {
			h.Infra("model: cannot encode %v: %v", e, err)
		}
		if e.Type == tar.TypeReg {
			_, err := w.Write([]byte(e.Body))
			h.Must(err)
		}
	}
	h.Must(w.Close())
	return buf.Bytes()
}

// pieces delivers its bytes in pieces of odd sizes, and the end of file along with the last one, as
// readers may.
type pieces struct {
	r     *bytes.Reader
	turn  int
	early bool
}

var pieceSizes = []int{512, 700, 1, 4096, 1 << 20, 300, 1 << 20, 33, 2, 1 << 20}

func (p *pieces) Read(b []byte) (int, error) {
	n := pieceSizes[p.turn%len(pieceSizes)]
	p.turn++
	if n < len(b) {
		b = b[:n]
	}
	n, err := p.r.Read(b)
	if err == nil && p.early && p.r.Len() == 0 {
		err = io.EOF
	}
	return n, err
}

// Pieces makes a reader that delivers the bytes in pieces.
func Pieces(r *bytes.Reader) io.Reader {
	return &pieces{r, r.Len() / 512, r.Len()%1024 == 0}
}

// TrailingJunk is whether anything but zeros follows the end of the archive.
func TrailingJunk(bs []byte) bool {
	r := bytes.NewReader(bs)
	t := tar.NewReader(r)
	for {
		if _, err := t.Next(); err != nil {
			break
		}
	}
	rest, _ := io.ReadAll(r)
	return len(bytes.Trim(rest, "\x00")) > 0
}

// static is a plain layer object whose digests are only computed on demand.
type static struct{ bs []byte }

func (l static) full() ociv1.Layer {
	ret, err := ociv1tarball.LayerFromOpener(func() (io.ReadCloser, error) {
		return io.NopCloser(bytes.NewReader(l.bs)), nil
	})
	if err != nil {
		h.Infra("model: LayerFromOpener: %v", err)
	}
	return ret
}
func (l static) Digest() (ociv1.Hash, error)        { return l.full().Digest() }
func (l static) DiffID() (ociv1.Hash, error)        { return l.full().DiffID() }
func (l static) Compressed() (io.ReadCloser, error) { return l.full().Compressed() }
func (l static) Uncompressed() (io.ReadCloser, error) {
	return io.NopCloser(Pieces(bytes.NewReader(l.bs))), nil
}
func (l static) Size() (int64, error)                   { return l.full().Size() }
func (l static) MediaType() (ocitypes.MediaType, error) { return l.full().MediaType() }

// FromBytes wraps tar bytes as a layer.
func FromBytes(bs []byte) ociv1.Layer { return static{bs} }

// OCI makes a layer object.
func (l Layer) OCI() ociv1.Layer { return FromBytes(l.Tar()) }

// OCIs converts a list of layers.
func OCIs(ls []Layer) []ociv1.Layer {
	ret := make([]ociv1.Layer, len(ls))
	for i, l := range ls {
		ret[i] = l.OCI()
	}
	return ret
}

// Bytes returns the uncompressed bytes of a layer.
func Bytes(l ociv1.Layer) ([]byte, error) {
	rc, err := l.Uncompressed()
	if err != nil {
		return nil, err
	}
	defer rc.Close()
	return io.ReadAll(rc)
}

// strict checks the framing of an archive by POSIX: other readers than archive/tar are less forgiving.
func strict(bs []byte) error {
	paxSize := int64(-1)
	for off := 0; ; {
		if len(bs)-off < 512 {
			return fmt.Errorf("strict: the archive ends at %d without two blocks of zeros", off)
		}
		blk := bs[off : off+512]
		if bytes.Count(blk, []byte{0}) == 512 {
			if len(bs)-off < 1024 || len(bytes.Trim(bs[off:], "\x00")) > 0 || len(bs)%512 != 0 {
				return fmt.Errorf("strict: the archive does not end in two blocks of zeros")
			}
			return nil
		}
		sum := int64(256)
		for i, b := range blk {
			if i < 148 || i >= 156 {
				sum += int64(b)
			}
		}
		if got, err := strconv.ParseInt(strings.Trim(string(blk[148:156]), " \x00"), 8, 64); err != nil || got != sum {
			return fmt.Errorf("strict: wrong checksum at %d", off)
		}
		var size int64
		if f := blk[124:136]; f[0]&0x80 != 0 {
			for _, b := range f[4:] {
				size = size<<8 | int64(b)
			}
		} else if txt := strings.Trim(string(f), " \x00"); txt != "" {
			var err error
			if size, err = strconv.ParseInt(txt, 8, 64); err != nil {
				return fmt.Errorf("strict: size %q at %d", txt, off)
			}
		}
		typ := blk[156]
		switch typ {
		case 'x', 'L', 'K', 'g':
			if typ == 'x' && int64(len(bs)-off-512) >= size {
				for rec := string(bs[off+512 : off+512+int(size)]); rec != ""; {
					n, err := strconv.Atoi(strings.SplitN(rec, " ", 2)[0])
					if err != nil || n > len(rec) || n < 5 || rec[n-1] != '\n' {
						return fmt.Errorf("strict: bad PAX record at %d", off)
					}
					if kv := strings.SplitN(strings.SplitN(rec[:n-1], " ", 2)[1], "=", 2); len(kv) == 2 && kv[0] == "size" {
						paxSize, _ = strconv.ParseInt(kv[1], 10, 64)
					}
					rec = rec[n:]
				}
			}
		default:
			if paxSize >= 0 {
				size, paxSize = paxSize, -1
			}
			if typ >= '1' && typ <= '6' && size != 0 {
				return fmt.Errorf("strict: the entry of type %c at %d says that it has %d bytes of contents", typ, off, size)
			}
		}
		off += 512 + int((size+511)/512*512)
	}
}

// Parse reads a tar stream in to the model.
func Parse(bs []byte) (Layer, error) {
	l, err := ParseLax(bs)
	if err == nil {
		err = strict(bs)
	}
	return l, err
}

// ParseLax is Parse for archives that come from damaged ones.
func ParseLax(bs []byte) (Layer, error) {
	var ret Layer
	r := tar.NewReader(bytes.NewReader(bs))
	for {
		hdr, err := r.Next()
		if errors.Is(err, io.EOF) {
			return ret, nil
		}
		if err != nil {
			return nil, err
		}
		body, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		ret = append(ret, Entry{
			Name: hdr.Name, Type: hdr.Typeflag, Link: hdr.Linkname, Body: string(body),
			Mode: hdr.Mode, UID: hdr.Uid, GID: hdr.Gid, Uname: hdr.Uname, Gname: hdr.Gname,
			MTime: hdr.ModTime, Major: hdr.Devmajor, Minor: hdr.Devminor,
			Xattr: hdr.PAXRecords[xattrKey], Format: hdr.Format,
		})
	}
}

// ParseLayer reads a layer object in to the model.
func ParseLayer(l ociv1.Layer) (Layer, error) {
	bs, err := Bytes(l)
	if err != nil {
		return nil, err
	}
	return Parse(bs)
}

// Inode is what a path of a flattened filesystem refers to.
type Inode struct {
	Implicit bool // a directory that exists only because something below it does
	E        Entry
}

// Node is a directory entry.
type Node struct {
	Ino      *Inode
	Children map[string]*Node // nil unless a directory
	Parent   *Node
}

func newDir(parent *Node) *Node {
	n := &Node{Ino: &Inode{Implicit: true}, Children: map[string]*Node{}, Parent: parent}
	if parent == nil {
		n.Parent = n
	}
	return n
}

// IsDir reports whether the node is a directory.
func (n *Node) IsDir() bool { return n.Children != nil }

// IsLink reports whether the node is a symlink.
func (n *Node) IsLink() bool { return !n.IsDir() && n.Ino.E.Type == tar.TypeSymlink }

// FS is a flattened filesystem.
type FS struct {
	Root *Node
	// Traversed counts symlinks followed as path components while applying entries.
	Traversed int
	// Touched lists the real paths of symlinks followed as path components.
	TouchedLinks map[*Node]bool
	// Vague is set when a path went "up" from where a dangling symlink leads: what that means
	// depends on layers below.
	Vague bool
}

// NewFS is an empty filesystem.
func NewFS() *FS { return &FS{Root: newDir(nil), TouchedLinks: map[*Node]bool{}} }

// ErrLoop is the model's ELOOP.
var ErrLoop = errors.New("model: symlink loop")

// ErrNotExist is the model's ENOENT.
var ErrNotExist = errors.New("model: does not exist")

// ErrNotDir is the model's ENOTDIR.
var ErrNotDir = errors.New("model: not a directory")

// walk resolves the path components below dir.  With create, missing or non-directory
// components become implicit directories.
func (fsys *FS) walk(dir *Node, comps []string, create bool, followLast bool, budget *int) (*Node, error) {
	cur := dir
	for i, comp := range comps {
		last := i == len(comps)-1
		switch comp {
		case "", ".":
			continue
		case "..":
			cur = cur.Parent
			continue
		}
		if !cur.IsDir() {
			if !create {
				return nil, ErrNotDir
			}
			cur.Ino = &Inode{Implicit: true}
			cur.Children = map[string]*Node{}
		}
		next := cur.Children[comp]
		if next == nil {
			if !create {
				return nil, ErrNotExist
			}
			next = newDir(cur)
			cur.Children[comp] = next
		}
		if next.IsLink() && (!last || followLast) {
			*budget--
			if *budget < 0 {
				return nil, ErrLoop
			}
			fsys.Traversed++
			fsys.TouchedLinks[next] = true
			start := cur
			tgt := next.Ino.E.Link
			if strings.HasPrefix(tgt, "/") {
				start = fsys.Root
			}
			start, rest, err := fsys.upwards(start, strings.Split(tgt, "/"), create, budget)
			if err != nil {
				return nil, err
			}
			n, err := fsys.walk(start, rest, create, true, budget)
			if err != nil {
				return nil, err
			}
			next = n
		}
		cur = next
	}
	return cur, nil
}

// upwards resolves a symlink's target up to its last "..", as the kernel does: "a/.." is the parent of
// what a leads to.  With create, what the layers do not have is taken for a directory of the layers below.
func (fsys *FS) upwards(dir *Node, comps []string, create bool, budget *int) (*Node, []string, error) {
	ups := 0
	for _, c := range comps {
		if c == ".." {
			ups++
		}
	}
	var unknown []string
	for ; ups > 0; comps = comps[1:] {
		c := comps[0]
		if c == ".." {
			ups--
		}
		if c == "" || c == "." {
			continue
		}
		if len(unknown) > 0 {
			if c == ".." {
				unknown = unknown[:len(unknown)-1]
			} else {
				unknown = append(unknown, c)
			}
			continue
		}
		n, err := fsys.walk(dir, []string{c}, false, true, budget)
		if err == nil && !n.IsDir() {
			err = ErrNotDir
		}
		if err == nil {
			dir = n
			continue
		}
		if err == ErrLoop || !create {
			return nil, nil, err
		}
		if dir.Children[c] != nil && dir.Children[c].IsLink() {
			fsys.Vague = true
		}
		unknown = append(unknown, c)
	}
	return dir, append(unknown, comps...), nil
}

// Lookup finds a node without following a final symlink.
func (fsys *FS) Lookup(name string) (*Node, error) {
	b := 1000
	return fsys.walk(fsys.Root, strings.Split(path.Clean(name), "/"), false, false, &b)
}

// Resolve finds a node, following symlinks.
func (fsys *FS) Resolve(name string) (*Node, error) {
	b := 1000
	return fsys.walk(fsys.Root, strings.Split(path.Clean(name), "/"), false, true, &b)
}

func (fsys *FS) dirOf(name string) (*Node, string, error) {
	name = path.Clean(name)
	dir, base := path.Split(name)
	b := 1000
	var comps []string
	if dir != "" {
		comps = strings.Split(path.Clean(dir), "/")
	}
	n, err := fsys.walk(fsys.Root, comps, true, true, &b)
	if err != nil {
		return nil, "", err
	}
	if !n.IsDir() {
		n.Ino = &Inode{Implicit: true}
		n.Children = map[string]*Node{}
	}
	return n, base, nil
}

// IsWhiteout reports whether a path names a whiteout marker.
func IsWhiteout(name string) bool { return strings.HasPrefix(path.Base(path.Clean(name)), ".wh.") }

// Apply puts a layer on top.
func (fsys *FS) Apply(l Layer) error {
	for _, e := range l {
		if !IsWhiteout(e.Name) || e.Type == tar.TypeXGlobalHeader {
			continue
		}
		dir, base, err := fsys.dirOf(e.Name)
		if err != nil {
			return err
		}
		if base == ".wh..wh..opq" {
			dir.Children = map[string]*Node{}
		} else {
			delete(dir.Children, strings.TrimPrefix(base, ".wh."))
		}
	}
	for _, e := range l {
		if IsWhiteout(e.Name) || e.Type == tar.TypeXGlobalHeader {
			continue
		}
		if path.Clean(e.Name) == "." {
			fsys.Root.Ino = &Inode{E: e}
			continue
		}
		dir, base, err := fsys.dirOf(e.Name)
		if err != nil {
			return err
		}
		n := &Node{Parent: dir, Ino: &Inode{E: e}}
		switch e.Type {
		case tar.TypeDir:
			if old := dir.Children[base]; old != nil && old.IsDir() {
				n.Children = old.Children
				for _, c := range n.Children {
					c.Parent = n
				}
			} else {
				n.Children = map[string]*Node{}
			}
		case tar.TypeLink:
			tgt, err := fsys.Lookup(e.Link)
			if err != nil || tgt.IsDir() {
				return fmt.Errorf("model: hardlink %q to %q: %v", e.Name, e.Link, err)
			}
			n.Ino = tgt.Ino
		}
		dir.Children[base] = n
	}
	return nil
}

// Flatten applies all layers to an empty filesystem.
func Flatten(ls ...Layer) (*FS, error) {
	fsys := NewFS()
	for _, l := range ls {
		if err := fsys.Apply(l); err != nil {
			return nil, err
		}
	}
	return fsys, nil
}

// hasExplicit reports whether the subtree holds anything but implicit directories.
func (n *Node) hasExplicit() bool {
	if !n.Ino.Implicit {
		return true
	}
	for _, c := range n.Children {
		if c.hasExplicit() {
			return true
		}
	}
	return false
}

// HasExplicit is hasExplicit.
func (n *Node) HasExplicit() bool { return n.hasExplicit() }

// Names lists a directory, without implicit directories that hold nothing.
func (n *Node) Names() []string {
	var ret []string
	for k, c := range n.Children {
		if c.hasExplicit() {
			ret = append(ret, k)
		}
	}
	sort.Strings(ret)
	return ret
}

// Paths lists every path (explicit or not) in depth-first order.
func (fsys *FS) Paths() []string {
	var ret []string
	var rec func(p string, n *Node)
	rec = func(p string, n *Node) {
		for _, k := range n.Names() {
			q := path.Join(p, k)
			ret = append(ret, q)
			rec(q, n.Children[k])
		}
	}
	rec("", fsys.Root)
	return ret
}

// DiffOpts says what to ignore.
type DiffOpts struct {
	NoTimes bool
}

func attrs(e Entry, o DiffOpts) string {
	t := e.MTime.Unix()*1000 + int64(e.MTime.Nanosecond())/1e6
	if o.NoTimes {
		t = 0
	}
	link, body, maj, min := "", "", int64(0), int64(0)
	switch e.Type {
	case tar.TypeReg:
		body = e.Body
	case tar.TypeSymlink:
		link = e.Link
	case tar.TypeChar, tar.TypeBlock:
		maj, min = e.Major, e.Minor
	}
	return fmt.Sprintf("%c mode=%o %d(%s):%d(%s) t=%d link=%q dev=%d,%d xattr=%q body=%q",
		e.Type, e.Mode, e.UID, e.Uname, e.GID, e.Gname, t, link, maj, min, e.Xattr, body)
}

// Diff describes the first difference between two filesystems ("" if none).  Directories that are
// implicit on one side compare equal to any directory on the other (their metadata is unspecified),
// and implicit directories that hold nothing are ignored.
func Diff(a, b *FS, o DiffOpts) string {
	return diff(".", a.Root, b.Root, o)
}

// DiffLinks is like Diff, and also wants what is one file under several names (hard links) to be that
// on both sides.
func DiffLinks(a, b *FS, o DiffOpts) string {
	if d := Diff(a, b, o); d != "" {
		return d
	}
	ab, ba := map[*Inode]*Inode{}, map[*Inode]*Inode{}
	return sameInodes(".", a.Root, b.Root, ab, ba)
}

func sameInodes(p string, a, b *Node, ab, ba map[*Inode]*Inode) string {
	if !a.IsDir() {
		x, okx := ab[a.Ino]
		y, oky := ba[b.Ino]
		if (okx && x != b.Ino) || (oky && y != a.Ino) {
			return fmt.Sprintf("%s: is another name for an earlier file (hard link) on one side only", p)
		}
		ab[a.Ino], ba[b.Ino] = b.Ino, a.Ino
		return ""
	}
	for _, k := range a.Names() {
		x, y := a.Children[k], b.Children[k]
		if x == nil || y == nil {
			continue
		}
		if d := sameInodes(path.Join(p, k), x, y, ab, ba); d != "" {
			return d
		}
	}
	return ""
}

func diff(p string, a, b *Node, o DiffOpts) string {
	if a.IsDir() != b.IsDir() {
		return fmt.Sprintf("%s: directory=%v vs directory=%v", p, a.IsDir(), b.IsDir())
	}
	if !a.IsDir() || (!a.Ino.Implicit && !b.Ino.Implicit) {
		x, y := attrs(a.Ino.E, o), attrs(b.Ino.E, o)
		if x != y {
			return fmt.Sprintf("%s: %s  vs  %s", p, x, y)
		}
	}
	seen := map[string]bool{}
	for k := range a.Children {
		seen[k] = true
	}
	for k := range b.Children {
		seen[k] = true
	}
	var names []string
	for k := range seen {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		x, y := a.Children[k], b.Children[k]
		if x != nil && y == nil && !x.hasExplicit() {
			continue
		}
		if y != nil && x == nil && !y.hasExplicit() {
			continue
		}
		if x == nil || y == nil {
			return fmt.Sprintf("%s: exists %v vs %v", path.Join(p, k), x != nil, y != nil)
		}
		if d := diff(path.Join(p, k), x, y, o); d != "" {
			return d
		}
	}
	return ""
}

// Put adds an entry literally: names that look like whiteouts have no meaning, and symlinks are not
// followed.
func (fsys *FS) Put(e Entry) {
	fsys.PutNode(e.Name, &Inode{E: e})
	if e.Type == tar.TypeDir {
		n, _ := fsys.Lookup(e.Name)
		if n.Children == nil {
			n.Children = map[string]*Node{}
		}
	}
}

// PutNode adds a path for an inode literally.
func (fsys *FS) PutNode(name string, ino *Inode) {
	name = path.Clean(name)
	if name == "." {
		fsys.Root.Ino = ino
		return
	}
	cur := fsys.Root
	parts := strings.Split(name, "/")
	for _, c := range parts[:len(parts)-1] {
		next := cur.Children[c]
		if next == nil {
			next = newDir(cur)
			cur.Children[c] = next
		}
		if next.Children == nil {
			next.Children = map[string]*Node{}
		}
		cur = next
	}
	last := parts[len(parts)-1]
	n := cur.Children[last]
	if n == nil {
		n = &Node{Parent: cur}
		cur.Children[last] = n
	}
	n.Ino = ino
}
