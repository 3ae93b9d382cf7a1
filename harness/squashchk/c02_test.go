package squashchk

import (
	"archive/tar"
	"bytes"
	"fmt"
	"path"
	"strings"
	"testing"

	"github.com/datawire/ocibuild/pkg/squash"
	"pgregory.net/rapid"

	"verif.local/harness/h"
	"verif.local/harness/lm"
)

// canonLess is the canonical order: depth first, a directory before what is in it, and in each
// directory the whiteout markers before everything else, by byte order.
func canonLess(a, b string) bool {
	as, bs := comps(a), comps(b)
	for i := 0; i < len(as) && i < len(bs); i++ {
		if as[i] == bs[i] {
			continue
		}
		aw, bw := strings.HasPrefix(as[i], ".wh."), strings.HasPrefix(bs[i], ".wh.")
		if aw != bw {
			return aw
		}
		return as[i] < bs[i]
	}
	return len(as) < len(bs)
}

func comps(p string) []string {
	p = path.Clean(p)
	if p == "." {
		return nil
	}
	return strings.Split(p, "/")
}

// canonical describes what is wrong with the shape of a squashed layer.
func canonical(l lm.Layer) string {
	for i, e := range l {
		want := path.Clean(e.Name)
		if e.Type == tar.TypeDir {
			want += "/"
		}
		if e.Name != want {
			return fmt.Sprintf("name %q is not in clean form (%q)", e.Name, want)
		}
		if strings.HasPrefix(e.Name, "/") || want == ".." || strings.HasPrefix(want, "../") {
			return fmt.Sprintf("name %q is outside of the root", e.Name)
		}
		if i > 0 {
			prev := l[i-1].Name
			if path.Clean(prev) == path.Clean(e.Name) {
				return fmt.Sprintf("%q appears twice", e.Name)
			}
			if !canonLess(prev, e.Name) {
				return fmt.Sprintf("%q comes after %q", e.Name, prev)
			}
		}
		for d := path.Dir(path.Clean(e.Name)); d != "."; d = path.Dir(d) {
			for _, o := range l {
				if path.Clean(o.Name) == d && o.Type != tar.TypeDir {
					return fmt.Sprintf("%q is below %q, which is not a directory", e.Name, o.Name)
				}
			}
		}
	}
	return ""
}

// files are the entries of a layer that are not whiteout markers.
func files(l lm.Layer) lm.Layer {
	var ret lm.Layer
	for _, e := range l {
		if !lm.IsWhiteout(e.Name) {
			ret = append(ret, e)
		}
	}
	return ret
}

func mustSquash(c *h.C, ls []lm.Layer) ([]byte, lm.Layer) {
	out, err := squash.Squash(lm.OCIs(ls))
	if err != nil {
		c.Fatalf("Squash failed: %v\nlayers: %s", err, lm.Describe(ls))
	}
	bs, err := lm.Bytes(out)
	if err != nil {
		c.Fatalf("reading squashed layer: %v", err)
	}
	l, err := lm.Parse(bs)
	if err != nil {
		c.Fatalf("squashed layer is not a readable tar: %v", err)
	}
	return bs, l
}

func TestC02(t *testing.T) {
	p := h.Start(t, "C02", "the squashed output has at least three entries, one of them not at top level")
	nontrivial := func(c *h.C, l lm.Layer, key string) {
		deep := false
		for _, e := range l {
			deep = deep || strings.Contains(strings.TrimSuffix(e.Name, "/"), "/")
		}
		if len(l) >= 3 && deep {
			c.Nontrivial(key)
		}
	}
	p.Run("canonical", 4000, 50000, func(c *h.C) {
		ls, _ := lm.GenStack(c.T, lm.StackOpts{Whiteouts: true, Symlinks: true, Hardlinks: true, MaxLayers: 4, MaxFiles: 8})
		if _, err := lm.Flatten(ls...); err != nil {
			c.Label("rejected-by-model")
			return
		}
		c.Journal(lm.Describe(ls))
		bs, l := mustSquash(c, ls)
		if bad := canonical(l); bad != "" {
			c.Fatalf("squashed layer is not canonical: %s\nlayers: %s\nsquashed: %s", bad, lm.Describe(ls), l)
		}
		for i := 0; i < 2; i++ {
			if bs2, l2 := mustSquash(c, ls); !bytes.Equal(bs, bs2) {
				c.Fatalf("squashing twice gives different bytes\nlayers: %s\n1st: %s\n2nd: %s", lm.Describe(ls), l, l2)
			}
		}
		// squashing a squashed layer at most drops redundant whiteout markers, and then is stable
		bs2, l2 := mustSquash(c, []lm.Layer{l})
		if x, y := files(l), files(l2); fmt.Sprint(x) != fmt.Sprint(y) || len(l2) > len(l) {
			c.Fatalf("squashing is not idempotent\nlayers: %s\nonce: %s\ntwice: %s", lm.Describe(ls), l, l2)
		}
		if bs3, l3 := mustSquash(c, []lm.Layer{l2}); !bytes.Equal(bs2, bs3) {
			c.Fatalf("squashing does not settle\nlayers: %s\ntwice: %s\nthrice: %s", lm.Describe(ls), l2, l3)
		}
		nontrivial(c, l, lm.Describe(ls))
	})
	// The order of the entries inside of a layer does not matter when they do not interact.
	p.Run("permutation", 2500, 30000, func(c *h.C) {
		var ls []lm.Layer
		h.Repeat(c.T, "layers", 1, 3, func(t *rapid.T) {
			var l lm.Layer
			files := map[string]bool{}
			dirs := map[string]bool{}
			white := map[string]bool{}
			h.Repeat(t, "entries", 1, 9, func(t *rapid.T) {
				n := lm.GenPath(t, 3)
				e := lm.Entry{Name: n, Mode: 0o644}
				switch h.Weighted(t, "type", 4, 2, 2) {
				case 0:
					e.Type, e.Body = tar.TypeReg, lm.GenBody(t)
				case 1:
					e.Type = tar.TypeDir
				case 2:
					// (whiteouts below something that is itself whited out do interact)
					for w := range white {
						if strings.HasPrefix(w+"/", n+"/") || strings.HasPrefix(n+"/", w+"/") {
							return
						}
					}
					white[n] = true
					d, b := path.Split(n)
					n = d + ".wh." + b
					e.Type, e.Name = tar.TypeReg, n
				}
				// no duplicates, no conflicts between files and directories
				if files[n] || (dirs[n] && e.Type != tar.TypeDir) || (e.Type == tar.TypeDir && files["D"+n]) {
					return
				}
				for d := path.Dir(n); d != "."; d = path.Dir(d) {
					if files[d] {
						return
					}
				}
				for d := path.Dir(n); d != "."; d = path.Dir(d) {
					dirs[d] = true
				}
				if e.Type == tar.TypeDir {
					dirs[n] = true
					files["D"+n] = true
				} else {
					files[n] = true
				}
				l = append(l, e)
			})
			ls = append(ls, l)
		})
		bs, l := mustSquash(c, ls)
		perm := make([]lm.Layer, len(ls))
		for i, x := range ls {
			if len(x) > 0 {
				perm[i] = rapid.Permutation(x).Draw(c.T, "perm")
			}
		}
		if bs2, l2 := mustSquash(c, perm); !bytes.Equal(bs, bs2) {
			c.Fatalf("the order of independent entries changes the output\nlayers: %s\npermuted: %s\n1st: %s\n2nd: %s",
				lm.Describe(ls), lm.Describe(perm), l, l2)
		}
		nontrivial(c, l, lm.Describe(ls))
	})
	// Names outside of the image root are refused, wherever they are.
	p.Run("outside", 1500, 15000, func(c *h.C) {
		ls, _ := lm.GenStack(c.T, lm.StackOpts{Whiteouts: true, MaxLayers: 3, MaxFiles: 4})
		if _, err := lm.Flatten(ls...); err != nil {
			return
		}
		bad := h.Pick(c.T, "bad", "../x", "/x", "..", "../", "a/../../x", "/", "./../x", "a/../..", "../.wh.x", "/a/.wh..wh..opq", "a/b/../../../c", "//x")
		if h.OneIn(c.T, "deep", 3) {
			bad = strings.TrimPrefix(bad, "./") + "/" + lm.GenPath(c.T, 2)
		}
		if cl := path.Clean(bad); !strings.HasPrefix(cl, "/") && cl != ".." && !strings.HasPrefix(cl, "../") {
			return // no longer outside
		}
		typ := h.Pick(c.T, "badtype", byte(tar.TypeReg), tar.TypeDir, tar.TypeSymlink, tar.TypeFifo)
		if strings.HasSuffix(bad, "/") {
			typ = tar.TypeDir
		}
		e := lm.Entry{Name: bad, Type: typ, Mode: 0o644}
		if typ == tar.TypeSymlink {
			e.Link = "x"
		}
		li := h.Int(c.T, "layer", 0, len(ls)-1)
		pos := h.Int(c.T, "pos", 0, len(ls[li]))
		l := append(lm.Layer{}, ls[li][:pos]...)
		l = append(append(l, e), ls[li][pos:]...)
		ls[li] = l
		out, err := squash.Squash(lm.OCIs(ls))
		if err == nil {
			sq, _ := lm.ParseLayer(out)
			c.Fatalf("Squash accepted the name %q\nlayers: %s\nsquashed: %s", bad, lm.Describe(ls), sq)
		}
		if _, err := squash.Load(lm.OCIs(ls), false); err == nil {
			c.Fatalf("Load accepted the name %q", bad)
		}
		c.Nontrivial(lm.Describe(ls))
	})
}
