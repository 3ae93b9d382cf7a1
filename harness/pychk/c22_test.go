package pychk

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/pkg/python/pep592"
	"verif.local/harness/h"
)

type excludeSet map[string]bool

func (e excludeSet) Allow(v pep440.Version) bool { return !e[v.String()] }

func TestC22(t *testing.T) {
	p := h.Start(t, "C22", "at least two versions match, and there is an exclusion that allows some of them or none")
	p.Assume("a file name of a wheel says its version in normal form")

	p.Run("select", 160000, 1200000, func(c *h.C) {
		base := genMV(c.T)
		base.Local = nil
		var cls []clause
		for n := h.Weighted(c.T, "nclauses", 3, 4, 2); len(cls) < n; {
			cl := clause{Op: h.Pick(c.T, "op", "~=", "==", "!=", "<=", ">=", "<", ">"), V: vary(c.T, base)}
			cl.Prefix = cl.Op == "==" || cl.Op == "!="
			cls = append(cls, cl.fix())
		}
		str := ""
		for _, cl := range cls {
			str += "," + cl.String()
		}
		spec, err := pep440.ParseSpecifier(str)
		if err != nil {
			c.Fatalf("%q: %v", str, err)
		}
		var vs []mv
		var choices []pep440.Version
		for n := h.Size(c.T, "n", 0, 7, 14, 100); len(vs) < n; {
			v := vary(c.T, base)
			if rapid.Bool().Draw(c.T, "final") {
				v.PreL, v.PreN, v.Dev = "", 0, -1
			}
			vs = append(vs, v)
			choices = append(choices, v.real())
		}
		// the exclusion
		var allow func(v mv) bool
		var excl pep440.ExclusionBehavior
		var gen func(depth int) (func(v mv) bool, pep440.ExclusionBehavior)
		gen = func(depth int) (func(v mv) bool, pep440.ExclusionBehavior) {
			switch k := h.Weighted(c.T, "excl", 2, 2, 6, 4, 4, 5*depth); k {
			case 0:
				return func(mv) bool { return true }, nil
			case 1:
				return func(mv) bool { return true }, pep440.AllowAll{}
			case 2:
				var list []mv
				var real []pep440.Version
				for n := h.Int(c.T, "nallow", 0, 2); len(list) < n && len(vs) > 0; {
					v := vs[h.Int(c.T, "allow", 0, len(vs)-1)]
					if h.OneIn(c.T, "other", 3) {
						v = vary(c.T, v)
					}
					list = append(list, v)
					real = append(real, v.real())
				}
				return func(v mv) bool {
					if !v.isPre() {
						return true
					}
					for _, l := range list {
						if cmpVer(l, v) == 0 {
							return true
						}
					}
					return false
				}, pep440.ExcludePreReleases{AllowList: real}
			case 3:
				set := excludeSet{}
				for _, v := range vs {
					if rapid.Bool().Draw(c.T, "ex") {
						set[v.String()] = true
					}
				}
				return func(v mv) bool { return !set[v.String()] }, set
			case 4:
				var links []pep503.FileLink
				yanked := map[string]bool{}
				seen := map[string]bool{}
				for _, v := range vs {
					if seen[v.canon()] {
						continue
					}
					seen[v.canon()] = true
					file := v // perhaps spelled differently in the name of the file
					file.Rel = append(append([]int(nil), v.Rel...), make([]int, h.Weighted(c.T, "zeros", 4, 1, 1))...)
					l := pep503.FileLink{Link: pep503.Link{Text: "foo-" + file.String() + "-py3-none-any.whl", DataAttrs: map[string]string{}}}
					if rapid.Bool().Draw(c.T, "yank") {
						l.DataAttrs["data-yanked"] = h.Pick(c.T, "reason", "", "broken", "false")
						yanked[v.canon()] = true
					}
					if pep592.IsYanked(l) != yanked[v.canon()] {
						c.Fatalf("IsYanked(%v) is wrong", l.Link)
					}
					links = append(links, l)
				}
				if rapid.Bool().Draw(c.T, "sdist") {
					links = append(links, pep503.FileLink{Link: pep503.Link{Text: "foo-1.tar.gz", DataAttrs: map[string]string{"data-yanked": ""}}})
				}
				return func(v mv) bool { return !yanked[v.canon()] }, pep592.ExcludeYanked(links)
			default:
				var fns []func(mv) bool
				var m pep440.MultiExcluder
				for n := h.Int(c.T, "nmulti", 0, 3); n > 0; n-- {
					f, e := gen(0)
					if e == nil {
						continue
					}
					fns, m = append(fns, f), append(m, e)
				}
				return func(v mv) bool {
					for _, f := range fns {
						if !f(v) {
							return false
						}
					}
					return true
				}, m
			}
		}
		allow, excl = gen(1)
		// the model
		var best *mv
		bestAllowed := false
		matching, allowed := 0, 0
		for i, v := range vs {
			v := v
			if !spec.Match(choices[i]) {
				continue
			}
			matching++
			a := allow(v)
			if a {
				allowed++
			}
			if excl != nil && excl.Allow(choices[i]) != a {
				c.Fatalf("%T allows %s: %v, want %v", excl, v, !a, a)
			}
			if best == nil || (a && !bestAllowed) || (a == bestAllowed && cmpVer(*best, v) < 0) {
				best, bestAllowed = &v, a
			}
		}
		var got *pep440.Version
		if err := h.Try(func() error { got = spec.Select(choices, excl); return nil }); err != nil {
			c.Fatalf("%v", err)
		}
		desc := fmt.Sprintf("%s of %v excluding by %T", spec, vs, excl)
		switch {
		case best == nil && got == nil:
		case best == nil || got == nil:
			c.Fatalf("%s selects %v, want %v", desc, got, best)
		default:
			found := false
			for _, v := range vs {
				if v.check(*got) == "" {
					found = true
				}
			}
			if !found || got.Cmp(best.real()) != 0 || allow(*best) != bestAllowed {
				c.Fatalf("%s selects %v, want %v", desc, got, best)
			}
		}
		for i, v := range vs {
			if d := v.check(choices[i]); d != "" {
				c.Fatalf("%s changed %s: %s", desc, v, d)
			}
		}
		c.LabelIf(best != nil && !bestAllowed, "only excluded")
		c.LabelIf(allowed > 0 && allowed < matching, "some excluded")
		if matching >= 2 && excl != nil && allowed < matching {
			c.Nontrivial(desc)
		}
	})
}
