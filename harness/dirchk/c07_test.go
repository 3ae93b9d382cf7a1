package dirchk

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"testing"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"pgregory.net/rapid"

	"verif.local/harness/h"
	"verif.local/harness/lm"
)

// ref is a FileReference that counts opens and closes and can fail.
type ref struct {
	fs.FileInfo
	full    string
	body    string
	openErr error
	readErr error
	clsErr  error
	opened  *int
	closed  *int
	after   int
}

func (r *ref) FullName() string { return r.full }
func (r *ref) Name() string     { return path.Base(r.full) }
func (r *ref) Open() (io.ReadCloser, error) {
	if r.openErr != nil {
		return nil, r.openErr
	}
	*r.opened++
	rd := lm.Pieces(bytes.NewReader([]byte(r.body)))
	if r.readErr != nil {
		rd = io.MultiReader(strings.NewReader(r.body[:r.after]), &failReader{r.readErr})
	}
	return &refReader{rd, r}, nil
}

type failReader struct{ err error }

func (f *failReader) Read([]byte) (int, error) { return 0, f.err }

type refReader struct {
	io.Reader
	r *ref
}

func (r *refReader) Close() error { *r.r.closed++; return r.r.clsErr }

func genRefEntries(t *rapid.T, clamp int64, max int) []lm.Entry {
	var ret []lm.Entry
	seen := map[string]bool{}
	nondir := map[string]bool{}
	min, wide := 0, h.OneIn(t, "wide", 40)
	if wide {
		min, max = 15, 5*max
	}
	h.Repeat(t, "refs", min, max, func(t *rapid.T) {
		comp := func() string {
			if wide && h.OneIn(t, "num", 2) {
				return fmt.Sprint(h.Pick(t, "ch", "n", "a", "a-"), h.Int(t, "num", 0, 60))
			}
			if h.OneIn(t, "longname", 25) {
				return strings.Repeat(h.Pick(t, "ch", "n", "é"), h.Pick(t, "len", 48, 50, 98, 99, 100, 101, 130, 255))
			}
			return h.Pick(t, "comp", "a", "b", "c", "a-b", "a.b", "a b", "a0", "aa", "é", "A", "a!", "a+", ".x", "zz", "..x", "...", "\x01", "\xff")
		}
		var name string
		if len(ret) > 0 && h.Weighted(t, "below", 1, 3) == 1 {
			// in, or next to, what is there
			e := ret[h.Int(t, "of", 0, len(ret)-1)]
			switch {
			case e.Type == tar.TypeDir:
				name = e.Name + "/" + comp()
			case h.OneIn(t, "next", 2):
				name = e.Name + h.Pick(t, "suffix", "-", ".", "0", "!", " ", "a")
			default:
				name = path.Join(path.Dir(e.Name), comp())
			}
		} else {
			for i := h.Int(t, "depth", 1, 4); i > 0; i-- {
				name = path.Join(name, comp())
			}
		}
		if seen[name] {
			return
		}
		for d := path.Dir(name); d != "."; d = path.Dir(d) {
			if nondir[d] {
				return
			}
		}
		for s := range seen {
			if strings.HasPrefix(s, name+"/") {
				nondir[name] = false
			}
		}
		isDir := false
		for s := range seen {
			if strings.HasPrefix(s, name+"/") {
				isDir = true
			}
		}
		e := lm.Entry{Name: name, Mode: int64(h.Pick(t, "mode", 0o644, 0o755, 0o600, 0o4755, 0o1777)),
			UID: h.Pick(t, "uid", 0, 7, 2097151, 2097152), GID: h.Pick(t, "gid", 0, 8), Uname: h.Pick(t, "un", "", "root", "u"), Gname: h.Pick(t, "gn", "", "root", "g"),
			MTime: genMTime(t, clamp)}
		if isDir || h.Weighted(t, "kind", 3, 2) == 1 {
			e.Type = tar.TypeDir
		} else {
			e.Type = tar.TypeReg
			e.Body = lm.GenBody(t)
			nondir[name] = true
		}
		seen[name] = true
		ret = append(ret, e)
	})
	return ret
}

func mkRefs(es []lm.Entry) ([]fsutil.FileReference, []*ref) {
	opened, closed := new(int), new(int)
	var ret []fsutil.FileReference
	var raw []*ref
	for _, e := range es {
		r := &ref{FileInfo: e.Header().FileInfo(), full: e.Name, body: e.Body, opened: opened, closed: closed}
		ret = append(ret, r)
		raw = append(raw, r)
	}
	return ret, raw
}

func TestC07(t *testing.T) {
	lm.Huge = 30
	defer func() { lm.Huge = 0 }()
	p := h.Start(t, "C07", "at least three files, at least one of them in a directory that is also listed or whose name sorts differently with and without the slash")
	p.Run("layer", 8000, 80000, func(c *h.C) {
		clamp := int64(h.Pick(c.T, "clamp", 1500000000, 1000000))
		es := genRefEntries(c.T, clamp, 12)
		refs, raw := mkRefs(es)
		desc := fmt.Sprintf("clamp=%d %s", clamp, lm.Layer(es))
		l, err := fsutil.LayerFromFileReferences(refs, time.Unix(clamp, 0))
		if err != nil {
			c.Fatalf("LayerFromFileReferences: %v\n%s", err, desc)
		}
		bs, err := lm.Bytes(l)
		if err != nil {
			c.Fatalf("reading: %v", err)
		}
		got, err := lm.Parse(bs)
		if err != nil {
			c.Fatalf("not a readable tar: %v\n%s", err, desc)
		}
		if len(raw) > 0 && *raw[0].opened != *raw[0].closed {
			c.Fatalf("%d files opened, %d closed\n%s", *raw[0].opened, *raw[0].closed, desc)
		}
		if len(got) != len(es) {
			c.Fatalf("%d files in, %d files out\n%s\nlayer: %s", len(es), len(got), desc, got)
		}
		byName := map[string]lm.Entry{}
		for _, e := range es {
			byName[e.Name] = e
		}
		pos := map[string]int{}
		for i, g := range got {
			n := path.Clean(g.Name)
			w, ok := byName[n]
			if !ok {
				c.Fatalf("%q is not one of the files\n%s", g.Name, desc)
			}
			if _, dup := pos[n]; dup {
				c.Fatalf("%q appears twice\n%s", n, desc)
			}
			pos[n] = i
			if g.Type != w.Type || g.Body != w.Body || g.Mode != w.Mode || g.UID != w.UID || g.GID != w.GID || g.Uname != w.Uname || g.Gname != w.Gname {
				c.Fatalf("%q changed: %v, want %v", n, g, w)
			}
			wt := w.MTime
			if wt.After(time.Unix(clamp, 0)) {
				wt = time.Unix(clamp, 0)
			}
			if g.MTime.Unix() != wt.Unix() && !(wt.Nanosecond() > 0 && g.MTime.Unix() == wt.Unix()+1) || g.MTime.Unix() > clamp {
				c.Fatalf("%q: time %d, want %v clamped to %d", n, g.MTime.Unix(), w.MTime, clamp)
			}
			if i > 0 && !partLess(path.Clean(got[i-1].Name), n) {
				c.Fatalf("%q comes after %q\n%s", n, got[i-1].Name, desc)
			}
		}
		// whatever order they are given in
		if len(es) > 1 {
			perm := rapid.Permutation(es).Draw(c.T, "perm")
			refs2, _ := mkRefs(perm)
			l2, err := fsutil.LayerFromFileReferences(refs2, time.Unix(clamp, 0))
			if err != nil {
				c.Fatalf("LayerFromFileReferences: %v\n%s", err, desc)
			}
			bs2, _ := lm.Bytes(l2)
			if !bytes.Equal(bs, bs2) {
				got2, _ := lm.Parse(bs2)
				c.Fatalf("the order of the list matters\n%s\n1st: %s\n2nd: %s", desc, got, got2)
			}
		}
		deep := false
		for n := range pos {
			_, ok := pos[path.Dir(n)]
			deep = deep || ok
		}
		if len(es) >= 3 && deep {
			c.Nontrivial(desc)
		}
	})
	p.Run("faults", 5000, 40000, func(c *h.C) {
		es := genRefEntries(c.T, 1500000000, 8)
		refs, raw := mkRefs(es)
		var regs []*ref
		for i, e := range es {
			if e.Type == tar.TypeReg {
				regs = append(regs, raw[i])
			}
		}
		if len(regs) == 0 {
			return
		}
		r := regs[h.Int(c.T, "which", 0, len(regs)-1)]
		fault := errors.New("injected")
		kind := h.Pick(c.T, "fault", "open", "read", "close", "short", "long")
		switch kind {
		case "open":
			r.openErr = fault
		case "read":
			r.readErr = fault
			r.after = h.Int(c.T, "after", 0, len(r.body))
		case "close":
			r.clsErr = fault
		case "short":
			if len(r.body) == 0 {
				return
			}
			r.body = r.body[:len(r.body)-1-h.Int(c.T, "cut", 0, len(r.body)-1)]
			fault = nil
		case "long":
			r.body += "x"
			fault = nil
		}
		_, err := fsutil.LayerFromFileReferences(refs, time.Unix(1500000000, 0))
		if err == nil || (fault != nil && !errors.Is(err, fault)) {
			c.Fatalf("a %s fault of %q gave the error %v\n%s", kind, r.full, err, lm.Layer(es))
		}
		if *r.opened != *r.closed {
			c.Fatalf("%s fault: %d files opened, %d closed", kind, *r.opened, *r.closed)
		}
		c.Label("fault-" + kind)
		c.Nontrivial(kind + " " + r.full + " " + lm.Layer(es).String())
	})
}

// partLess compares paths component by component.
func partLess(a, b string) bool {
	as, bs := strings.Split(a, "/"), strings.Split(b, "/")
	for i := 0; i < len(as) && i < len(bs); i++ {
		if as[i] != bs[i] {
			return as[i] < bs[i]
		}
	}
	return len(as) < len(bs)
}
