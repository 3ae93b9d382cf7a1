package pychk

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/datawire/ocibuild/pkg/python/pep440"
	"verif.local/harness/h"
)

func TestC20(t *testing.T) {
	p := h.Start(t, "C20", "at least one of the pairs compared is equal in epoch and (zero-padded) release without being identical, or differs only in spelling or trailing zeros")
	p.Assume("numbers in a public version fit in 63 bits")

	gen := func(c *h.C, n int) []mv {
		base := genMV(c.T)
		vs := []mv{base}
		for len(vs) < n {
			if h.OneIn(c.T, "fresh", 6) {
				vs = append(vs, genMV(c.T))
			} else {
				vs = append(vs, vary(c.T, vs[h.Int(c.T, "of", 0, len(vs)-1)]))
			}
		}
		return vs
	}
	close := func(vs []mv) bool {
		for i, a := range vs {
			for _, b := range vs[:i] {
				if a.Epoch == b.Epoch && cmpRel(a.Rel, b.Rel) == 0 && a.String() != b.String() {
					return true
				}
			}
		}
		return false
	}
	key := func(vs []mv) string {
		var ss []string
		for _, v := range vs {
			ss = append(ss, v.String())
		}
		return strings.Join(ss, " ")
	}

	p.Run("model", 48000, 900000, func(c *h.C) {
		vs := gen(c, 3)
		var rs []pep440.Version
		for _, v := range vs {
			rs = append(rs, *parse(c, spell(c.T, v)))
		}
		for i := range vs {
			for j := range vs {
				var got, gotPub int
				if err := h.Try(func() error {
					got = rs[i].Cmp(rs[j])
					gotPub = rs[i].PublicVersion.Cmp(rs[j].PublicVersion)
					return nil
				}); err != nil {
					c.Fatalf("comparing %s with %s: %v", vs[i], vs[j], err)
				}
				if sign(got) != cmpVer(vs[i], vs[j]) {
					c.Fatalf("comparing %s with %s gives %d, want %d", vs[i], vs[j], got, cmpVer(vs[i], vs[j]))
				}
				if sign(gotPub) != cmpPub(vs[i], vs[j]) {
					c.Fatalf("comparing the public parts of %s with %s gives %d, want %d", vs[i], vs[j], gotPub, cmpPub(vs[i], vs[j]))
				}
			}
		}
		for i := range vs {
			if d := vs[i].check(rs[i]); d != "" {
				c.Fatalf("comparing changed %s: %s", vs[i], d)
			}
		}
		if close(vs) {
			c.Nontrivial(key(vs))
		}
	})

	p.Run("packaging", 15000, 180000, func(c *h.C) {
		vs := gen(c, 4)
		var ss []string
		var rs []pep440.Version
		for _, v := range vs {
			s := spell(c.T, v)
			ss = append(ss, s)
			rs = append(rs, *parse(c, s))
		}
		var want struct{ Cmp [][]int }
		ask(map[string]interface{}{"op": "cmp", "vs": ss}, &want)
		for i := range vs {
			for j := range vs {
				if got := rs[i].Cmp(rs[j]); sign(got) != want.Cmp[i][j] {
					c.Fatalf("comparing %q with %q gives %d; Python gives %d", ss[i], ss[j], got, want.Cmp[i][j])
				}
			}
		}
		if close(vs) {
			c.Nontrivial(key(vs))
		}
	})

	// sorting gives one order whatever the order before
	p.Run("sort", 9000, 120000, func(c *h.C) {
		vs := gen(c, h.Size(c.T, "n", 3, 12, 20, 10))
		idx := make([]int, len(vs))
		for i := range idx {
			idx[i] = i
		}
		var rs []pep440.Version
		for _, v := range vs {
			rs = append(rs, v.real())
		}
		order := func() string {
			var ss []string
			sort.SliceStable(idx, func(i, j int) bool { return rs[idx[i]].Cmp(rs[idx[j]]) < 0 })
			for k, i := range idx {
				if k > 0 && cmpVer(vs[idx[k-1]], vs[i]) > 0 {
					c.Fatalf("%s sorted before %s", vs[idx[k-1]], vs[i])
				}
				ss = append(ss, vs[i].canon())
			}
			return strings.Join(ss, " ")
		}
		a := order()
		for i := len(idx) - 1; i > 0; i-- {
			j := h.Int(c.T, "shuffle", 0, i)
			idx[i], idx[j] = idx[j], idx[i]
		}
		if b := order(); a != b {
			c.Fatalf("sorted as %s and as %s", a, b)
		}
		if close(vs) {
			c.Nontrivial(fmt.Sprint(a))
		}
	})
}

// canon is the same string for equal versions.
func (v mv) canon() string {
	v.Rel = append([]int(nil), v.Rel...)
	for len(v.Rel) > 1 && v.Rel[len(v.Rel)-1] == 0 {
		v.Rel = v.Rel[:len(v.Rel)-1]
	}
	return v.String()
}
