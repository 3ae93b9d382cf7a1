package squashchk

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"testing"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/squash"
	"pgregory.net/rapid"

	"verif.local/harness/h"
	"verif.local/harness/lm"
)

// survives runs everything on the layers; what it does with nonsense is up to it, but it must end
// with a result or an error.
func survives(c *h.C, layers []ociv1.Layer, desc string, queries []string) (squashed bool) {
	c.Journal(desc)
	c.Guard("squashing / loading "+desc, 60*time.Second, func() {
		err := h.Try(func() error {
			out, err := squash.Squash(layers)
			if err != nil {
				return nil
			}
			bs, err := lm.Bytes(out)
			if err != nil {
				return fmt.Errorf("squashed layer cannot be read: %w", err)
			}
			l, err := lm.ParseLax(bs)
			if err != nil {
				return fmt.Errorf("squashed layer is not a readable tar: %w", err)
			}
			seen := map[string]bool{}
			for _, e := range l {
				n := path.Clean(e.Name)
				if strings.HasPrefix(n, "/") || n == ".." || strings.HasPrefix(n, "../") {
					return fmt.Errorf("squashed layer has the name %q", e.Name)
				}
				if seen[n] {
					return fmt.Errorf("squashed layer has %q twice", e.Name)
				}
				seen[n] = true
			}
			squashed = true
			return nil
		})
		if err != nil {
			c.Fatalf("%v\n%s", err, desc)
		}
		err = h.Try(func() error {
			fsys, err := squash.Load(layers, false)
			if err != nil {
				return nil
			}
			n := 0
			_ = fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
				n++
				if n > 5000 {
					return errors.New("enough")
				}
				if d != nil && err == nil {
					_, _ = d.Info()
				}
				queries = append(queries, p)
				return nil
			})
			for _, q := range queries {
				f, err := fsys.Open(q)
				if err != nil {
					continue
				}
				_, _ = f.Stat()
				_, _ = io.Copy(io.Discard, f)
				if d, ok := f.(fs.ReadDirFile); ok {
					_, _ = d.ReadDir(1)
					_, _ = d.ReadDir(-1)
				}
				_ = f.Close()
			}
			return nil
		})
		if err != nil {
			c.Fatalf("%v\n%s", err, desc)
		}
	})
	return squashed
}

func TestC04(t *testing.T) {
	p := h.Start(t, "C04", "the layers contain a symlink whose path or target runs through another symlink, or a malformed name, type or byte")
	// Dense symlink graphs: few names, nearly every entry a symlink to a path through others.
	p.Run("symlink-graphs", 6000, 80000, func(c *h.C) {
		var ls []lm.Layer
		names := []string{"a", "b", "c", "a/b", "b/a", "a/a", "c/a/b", "."}
		tgts := []string{"a", "b", "c", "a/b", "a/a", "b/c", "c/a", "/a/b", "../a", "../../b/a", ".", "..", "/", "a/b/c/a", "./a", "b/", ""}
		interesting := false
		h.Repeat(c.T, "layers", 1, 3, func(t *rapid.T) {
			var l lm.Layer
			h.Repeat(t, "entries", 1, 7, func(t *rapid.T) {
				e := lm.Entry{Name: h.Pick(t, "name", names...), Mode: 0o777}
				switch h.Weighted(t, "type", 8, 2, 2, 1, 1) {
				case 0:
					e.Type, e.Link = tar.TypeSymlink, h.Pick(t, "tgt", tgts...)
					interesting = interesting || strings.Contains(e.Link, "/") || strings.Contains(e.Name, "/")
				case 1:
					e.Type, e.Body = tar.TypeReg, "x"
				case 2:
					e.Type = tar.TypeDir
				case 3:
					e.Type, e.Link = tar.TypeLink, h.Pick(t, "tgt", tgts[:10]...)
				case 4:
					e.Type = tar.TypeReg
					e.Name = path.Join(path.Dir(e.Name), h.Pick(t, "wh", ".wh.a", ".wh.b", ".wh..wh..opq", ".wh.", ".wh..", ".wh...", ".wh..wh.", ".wh..wh.a", ".wh..wh..opq/x", "a/.wh..wh..opq"))
				}
				l = append(l, e)
			})
			ls = append(ls, l)
		})
		ok := survives(c, lm.OCIs(ls), lm.Describe(ls), []string{"a", "b", "c", "a/b", "a/a/a", "b/c/a", "c/c", "a/b/c/a/b/c"})
		c.LabelIf(ok, "squashed")
		c.LabelIf(!ok, "refused")
		if interesting {
			c.Nontrivial(lm.Describe(ls))
		}
	})
	// Long chains and nests: s1 -> s0/s0, s2 -> s1/s1, ... costs 2^n steps if nothing bounds it.
	p.Run("symlink-bombs", 300, 3000, func(c *h.C) {
		n := h.Int(c.T, "n", 2, 60)
		shape := h.Pick(c.T, "shape", "nest", "chain", "dirchain", "selfnest")
		var l lm.Layer
		dir := h.Pick(c.T, "dir", "", "d/", "d/e/")
		switch shape {
		case "nest":
			l = append(l, lm.Entry{Name: dir + "s0", Type: tar.TypeSymlink, Link: "."})
			for i := 1; i <= n; i++ {
				l = append(l, lm.Entry{Name: fmt.Sprintf("%ss%d", dir, i), Type: tar.TypeSymlink, Link: fmt.Sprintf("s%d/s%d", i-1, i-1)})
			}
		case "chain":
			l = append(l, lm.Entry{Name: dir + "s0", Type: tar.TypeDir})
			for i := 1; i <= n*3; i++ {
				l = append(l, lm.Entry{Name: fmt.Sprintf("%ss%d", dir, i), Type: tar.TypeSymlink, Link: fmt.Sprintf("s%d", i-1)})
			}
		case "dirchain":
			for i := 1; i <= n; i++ {
				l = append(l, lm.Entry{Name: fmt.Sprintf("%ss%d", dir, i), Type: tar.TypeSymlink, Link: fmt.Sprintf("s%d/k", i-1)})
			}
		case "selfnest":
			l = append(l, lm.Entry{Name: dir + "s0", Type: tar.TypeSymlink, Link: "s0/x"})
			for i := 1; i <= n; i++ {
				l = append(l, lm.Entry{Name: fmt.Sprintf("%ss%d", dir, i), Type: tar.TypeSymlink, Link: fmt.Sprintf("s%d/s0/s%d", i-1, i)})
			}
		}
		var qs []string
		top := dir + "s" + fmt.Sprint(n)
		for k := h.Int(c.T, "uses", 0, 3); k > 0; k-- {
			l = append(l, lm.Entry{Name: top + "/f" + fmt.Sprint(k), Type: tar.TypeReg, Mode: 0o644, Body: "x"})
		}
		qs = append(qs, top, top+"/f1", dir+"s1/s2/s3", top+"/"+path.Base(top))
		survives(c, []ociv1.Layer{l.OCI()}, fmt.Sprintf("%s n=%d dir=%q entries=%d", shape, n, dir, len(l)), qs)
		c.Nontrivial(fmt.Sprintf("%s n=%d dir=%q %v", shape, n, dir, len(l)))
	})
	// Damaged archives.
	p.Run("damaged", 3000, 60000, func(c *h.C) {
		ls, _ := lm.GenStack(c.T, lm.StackOpts{Whiteouts: true, Symlinks: true, Hardlinks: true, MaxLayers: 2, MaxFiles: 5})
		var layers []ociv1.Layer
		var desc []string
		for _, l := range ls {
			bs := l.Tar()
			h.Repeat(c.T, "damage", 0, 4, func(t *rapid.T) {
				if len(bs) == 0 {
					return
				}
				switch h.Weighted(t, "kind", 3, 3, 2, 1, 2) {
				case 0: // one byte, mostly in headers, with the checksum repaired
					i := h.Int(t, "block", 0, (len(bs)-1)/512)*512 + h.Pick(t, "off", 0, 1, 100, 108, 116, 124, 135, 136, 148, 156, 157, 257, 263, 329, 345, 500)
					if i < len(bs) {
						bs[i] = rapid.Byte().Draw(t, "byte")
						fixChecksum(bs, i/512*512)
					}
				case 1:
					i := h.Int(t, "pos", 0, len(bs)-1)
					bs[i] ^= 1 << h.Int(t, "bit", 0, 7)
				case 2:
					bs = bs[:h.Int(t, "cut", 0, len(bs))]
				case 3:
					bs = append(bs, rapid.SliceOfN(rapid.Byte(), 1, 600).Draw(t, "junk")...)
				case 4:
					i := h.Int(t, "block", 0, (len(bs)-1)/512) * 512
					if i+512 <= len(bs) {
						bs[i+156] = h.Pick(t, "typeflag", byte('0'), 0, '1', '2', '3', '4', '5', '6', '7', 'g', 'x', 'L', 'K', 'S', 'Z', 'V')
						fixChecksum(bs, i)
					}
				}
			})
			cp := append([]byte{}, bs...)
			layers = append(layers, lm.FromBytes(cp))
			desc = append(desc, fmt.Sprintf("%x", trunc(cp)))
		}
		ok := survives(c, layers, lm.Describe(ls), []string{"a", "b", "a/b", "a/b/c"})
		c.LabelIf(ok, "damaged-squashed")
		if len(layers) > 0 {
			c.Nontrivial(strings.Join(desc, "|"))
		}
	})
	// A layer that ends within a header or within a file's contents is refused.
	p.Run("cut-off", 1500, 20000, func(c *h.C) {
		ls, _ := lm.GenStack(c.T, lm.StackOpts{Whiteouts: true, MaxLayers: 3, MaxFiles: 5})
		k := h.Int(c.T, "which", 0, len(ls)-1)
		if len(ls[k]) == 0 {
			return
		}
		i := h.Int(c.T, "entry", 0, len(ls[k])-1)
		start := len(ls[k][:i].Tar()) - 1024
		end := len(ls[k][:i+1].Tar()) - 1024
		bs := ls[k].Tar()
		cut := start + h.Int(c.T, "off", 1, 511)
		if body := len(ls[k][i].Body); ls[k][i].Type == tar.TypeReg && ls[k][i].Sparse == 0 && body > 0 && rapid.Bool().Draw(c.T, "body") {
			blocks := (body + 511) / 512 * 512
			cut = end - blocks + h.Int(c.T, "bodyoff", 0, body-1)
		}
		layers := lm.OCIs(ls)
		layers[k] = lm.FromBytes(bs[:cut])
		if _, err := squash.Squash(layers); err == nil {
			c.Fatalf("layer %d is cut off after %d of %d bytes, in entry %d (from %d to %d), and is accepted\nlayers: %s", k, cut, len(bs), i, start, end, lm.Describe(ls))
		}
		if _, err := squash.Load(layers, rapid.Bool().Draw(c.T, "omit")); err == nil {
			c.Fatalf("Load: layer %d is cut off after %d of %d bytes, in entry %d (from %d to %d), and is accepted\nlayers: %s", k, cut, len(bs), i, start, end, lm.Describe(ls))
		}
		c.Nontrivial(fmt.Sprintf("cut off layer %d at %d: %s", k, cut, lm.Describe(ls)))
	})
	// Reading errors of a layer are reported, never swallowed.
	p.Run("read-faults", 1500, 20000, func(c *h.C) {
		ls, _ := lm.GenStack(c.T, lm.StackOpts{Whiteouts: true, MaxLayers: 3, MaxFiles: 5})
		k := h.Int(c.T, "which", 0, len(ls)-1)
		bs := ls[k].Tar()
		if len(ls[k]) == 0 {
			return
		}
		// the fault comes before the end-of-archive marker
		at := h.Int(c.T, "at", 0, len(bs)-1025)
		// (or opening the layer fails, or nothing does)
		kind := h.Pick(c.T, "kind", "read", "read", "read", "open", "none")
		layers := lm.OCIs(ls)
		var count openCount
		for i := range layers {
			layers[i] = faultyLayer{Layer: layers[i], bs: ls[i].Tar(), err: io.EOF, count: &count}
		}
		switch kind {
		case "read":
			layers[k] = faultyLayer{Layer: layers[k], bs: bs[:at], err: errFault, count: &count}
		case "open":
			layers[k] = faultyLayer{Layer: layers[k], failOpen: true, count: &count}
		}
		if _, err := squash.Squash(layers); err == nil && kind != "none" {
			c.Fatalf("a %s error after %d of %d bytes of layer %d goes unreported\nlayers: %s", kind, at, len(bs), k, lm.Describe(ls))
		}
		if count.opened != count.closed {
			c.Fatalf("of %d opened layers, %d were closed (%s error)\nlayers: %s", count.opened, count.closed, kind, lm.Describe(ls))
		}
		if _, err := squash.Load(layers, rapid.Bool().Draw(c.T, "omit")); err == nil && kind != "none" {
			c.Fatalf("Load: a %s error after %d of %d bytes of layer %d goes unreported\nlayers: %s", kind, at, len(bs), k, lm.Describe(ls))
		}
		if count.opened != count.closed {
			c.Fatalf("Load: of %d opened layers, %d were closed (%s error)\nlayers: %s", count.opened, count.closed, kind, lm.Describe(ls))
		}
		c.Nontrivial(fmt.Sprintf("fault in layer %d at %d: %s", k, at, lm.Describe(ls)))
	})
}

var errFault = errors.New("injected read fault")

type openCount struct{ opened, closed int }

type faultyLayer struct {
	ociv1.Layer
	bs       []byte
	err      error
	failOpen bool
	count    *openCount
}

type faultyReader struct {
	io.Reader
	err    error
	count  *openCount
	closed bool
}

func (r *faultyReader) Read(p []byte) (int, error) {
	n, err := r.Reader.Read(p)
	if errors.Is(err, io.EOF) {
		err = r.err
	}
	return n, err
}

func (r *faultyReader) Close() error {
	if !r.closed {
		r.count.closed++
	}
	r.closed = true
	return nil
}

func (l faultyLayer) Uncompressed() (io.ReadCloser, error) {
	if l.failOpen {
		return nil, errFault
	}
	l.count.opened++
	return &faultyReader{Reader: lm.Pieces(bytes.NewReader(l.bs)), err: l.err, count: l.count}, nil
}

func trunc(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

func fixChecksum(bs []byte, i int) {
	if i+512 > len(bs) {
		return
	}
	sum := 0
	for k := 0; k < 512; k++ {
		if k >= 148 && k < 156 {
			sum += ' '
		} else {
			sum += int(bs[i+k])
		}
	}
	copy(bs[i+148:], fmt.Sprintf("%06o\x00 ", sum))
}
