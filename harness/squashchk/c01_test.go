package squashchk

import (
	"archive/tar"
	"path"
	"testing"

	"github.com/datawire/ocibuild/pkg/squash"

	"verif.local/harness/h"
	"verif.local/harness/lm"
)

const baseFile = "zbase"

// bases are several bottoms; besides the generated ones there is one adversarial bottom that holds
// a file and a directory at about every path the stack mentions, so that anything a squashed layer
// fails to hide or hides too much shows.
func bases(c *h.C, ls []lm.Layer) [][]lm.Layer {
	keep := lm.Layer{{Name: baseFile, Type: tar.TypeReg, Mode: 0o644, Body: "kept"}}
	ret := [][]lm.Layer{{keep}}
	ret = append(ret, append([]lm.Layer{keep}, lm.GenBase(c.T, h.Int(c.T, "nbase", 1, 2))...))
	full := lm.NewFS()
	var adv lm.Layer
	_ = full
	dirs := map[string]bool{}
	for _, l := range ls {
		for _, e := range l {
			if e.Type == tar.TypeXGlobalHeader {
				continue
			}
			for d := path.Dir(path.Clean(e.Name)); d != "."; d = path.Dir(d) {
				dirs[d] = true
			}
			if e.Type == tar.TypeDir && path.Clean(e.Name) != "." {
				dirs[path.Clean(e.Name)] = true
			}
		}
	}
	seen := map[string]bool{}
	for _, l := range ls {
		for _, e := range l {
			n := path.Clean(e.Name)
			if e.Type == tar.TypeXGlobalHeader {
				continue
			}
			if lm.IsWhiteout(n) {
				n = path.Join(path.Dir(n), "lowkid")
			}
			if n == "." || dirs[n] || seen[n] {
				continue
			}
			seen[n] = true
			adv = append(adv, lm.Entry{Name: n + "/low", Type: tar.TypeReg, Mode: 0o600, Body: "low:" + n})
		}
	}
	for _, d := range sortedKeys(dirs) {
		adv = append(adv, lm.Entry{Name: d + "/lowsib", Type: tar.TypeReg, Mode: 0o640, Body: "sib:" + d})
	}
	ret = append(ret, []lm.Layer{keep, adv})
	return ret
}

func TestC01(t *testing.T) {
	lm.Huge = 100
	defer func() { lm.Huge = 0 }()
	p := h.Start(t, "C01", "the stack has at least two layers, or a whiteout, or a link, and the upper entries touch a path that an earlier entry or lower layer also touches")
	p.Assume("a symlink that dangles in the layers and has a path go up (\"..\") from where it leads dangles in the lower layers too")
	p.Assume("lower layers hold no symlink that an upper layer's path goes through (which no squash could honour without the lower layers)")
	check := func(c *h.C, ls []lm.Layer, stats map[string]int) {
		bs := bases(c, ls)
		if alone, err := lm.Flatten(append(append([]lm.Layer{}, bs[0]...), ls...)...); err == nil && alone.Vague {
			c.Label("up-from-dangling") // only the same over lower layers that have nothing there
			bs = bs[:1]
		}
		c.Journal(lm.Describe(ls))
		var want []*lm.FS
		for _, b := range bs {
			f, err := lm.Flatten(append(append([]lm.Layer{}, b...), ls...)...)
			if err != nil {
				c.Label("rejected-by-model")
				return // a stack that cannot be extracted at all (a symlink loop in a path)
			}
			want = append(want, f)
		}
		out, err := squash.Squash(lm.OCIs(ls))
		if err != nil {
			c.Fatalf("Squash failed: %v\nlayers: %s", err, lm.Describe(ls))
		}
		sq, err := lm.ParseLayer(out)
		if err != nil {
			c.Fatalf("squashed layer is not a readable tar: %v\nlayers: %s", err, lm.Describe(ls))
		}
		for i, b := range bs {
			got, err := lm.Flatten(append(append([]lm.Layer{}, b...), sq)...)
			if err != nil {
				c.Fatalf("squashed layer cannot be applied: %v\nlayers: %s\nsquashed: %s", err, lm.Describe(ls), sq)
			}
			if d := lm.DiffLinks(want[i], got, lm.DiffOpts{}); d != "" {
				c.Fatalf("different filesystems (applied one by one vs squashed): %s\nbase: %s\nlayers: %s\nsquashed: %s",
					d, lm.Describe(b), lm.Describe(ls), sq)
			}
			c.LabelIf(want[i].Traversed > 0, "through-symlink")
		}
		c.LabelIf(stats["upper-whiteout"] > 0, "upper-whiteout")
		c.LabelIf(stats["opaque"] > 0, "opaque")
		c.LabelIf(stats["hardlink"] > 0, "hardlink")
		c.LabelIf(stats["symlink"] > 0, "symlink")
		if stats["layers"] >= 2 || stats["whiteout"]+stats["opaque"] > 0 || stats["symlink"]+stats["hardlink"] > 0 {
			c.Nontrivial(lm.Describe(ls))
		}
	}
	p.Run("plain", 6000, 60000, func(c *h.C) {
		ls, st := lm.GenStack(c.T, lm.StackOpts{Whiteouts: true, MaxLayers: 5, MaxFiles: 6})
		check(c, ls, st)
	})
	p.Run("symlinks", 6000, 60000, func(c *h.C) {
		ls, st := lm.GenStack(c.T, lm.StackOpts{Whiteouts: true, Symlinks: true, MaxLayers: 4, MaxFiles: 6})
		check(c, ls, st)
	})
	p.Run("hardlinks", 4000, 40000, func(c *h.C) {
		ls, st := lm.GenStack(c.T, lm.StackOpts{Whiteouts: true, Hardlinks: true, MaxLayers: 4, MaxFiles: 6, BaseLink: baseFile})
		check(c, ls, st)
	})
	p.Run("everything", 3000, 40000, func(c *h.C) {
		ls, st := lm.GenStack(c.T, lm.StackOpts{Whiteouts: true, Symlinks: true, Hardlinks: true, MaxLayers: 5, MaxFiles: 7, BaseLink: baseFile})
		check(c, ls, st)
	})
}
