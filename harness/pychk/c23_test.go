package pychk

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pep345"
	"verif.local/harness/h"
)

// match345 is the model of a PEP 345 clause.
func match345(op string, spec, v mv) bool {
	special := spec.Dev >= 0 || len(spec.Local) > 0
	switch op {
	case "<":
		return cmpVer(v, spec) < 0 && (special || !prefixMatch(spec, v))
	case "<=":
		return cmpVer(v, spec) <= 0
	case ">":
		return cmpVer(v, spec) > 0
	case ">=":
		return cmpVer(v, spec) >= 0
	case "!=":
		return !match345("==", spec, v)
	}
	switch {
	case len(spec.Local) > 0:
		return cmpVer(v, spec) == 0
	case spec.Dev >= 0:
		return cmpPub(v, spec) == 0
	case !prefixMatch(spec, v) || v.Dev >= 0:
		return false
	case spec.Post >= 0:
		return true
	case v.Post >= 0:
		return false
	case spec.PreL != "":
		return true
	default:
		return v.PreL == ""
	}
}

func TestC23(t *testing.T) {
	p := h.Start(t, "C23", "a clause's version is within one release or a prefix of the Python version; for 'version_info' a pre-release")
	p.Assume("the Python version has no local part")

	p.Run("requires", 200000, 1500000, func(c *h.C) {
		have := genMV(c.T)
		have.Local = nil
		if rapid.Bool().Draw(c.T, "final") {
			have.PreL, have.PreN, have.Post, have.Dev = "", 0, -1, -1
		}
		want := true
		near := false
		var strs []string
		for i, n := 0, h.Weighted(c.T, "n", 1, 10, 5, 2); i < n; i++ {
			v := genMV(c.T)
			if !h.OneIn(c.T, "fresh", 5) {
				v = vary(c.T, have)
				if rapid.Bool().Draw(c.T, "shorter") && len(v.Rel) > 1 {
					v.Rel = v.Rel[:len(v.Rel)-1]
				}
			}
			if !h.OneIn(c.T, "odd", 4) {
				v.PreL, v.PreN, v.Post, v.Dev, v.Local = "", 0, -1, -1, nil
			}
			if len(v.Local) > 0 && v.Dev < 0 {
				v.Local = nil
			}
			op := h.Pick(c.T, "op", "", "==", "!=", "<", "<=", ">", ">=")
			ok := match345(op, v, have)
			c.Label(fmt.Sprintf("%s %v", op, ok))
			want = want && ok
			near = near || prefixMatch(mv{Epoch: v.Epoch, Rel: v.Rel, Post: -1, Dev: -1}, have)
			strs = append(strs, genSpace(c.T)+op+spell(c.T, v))
		}
		req := strings.Join(strs, ",")
		var got bool
		if err := h.Try(func() (err error) { got, err = pep345.HaveRequiredPython(have.real(), req); return }); err != nil {
			c.Fatalf("requirement %q is refused: %v", req, err)
		}
		if got != want {
			c.Fatalf("Python %s satisfies %q: %v, want %v", have, req, got, want)
		}
		if near {
			c.Nontrivial(have.String() + " " + req)
		}
	})

	p.Run("invalid", 24000, 90000, func(c *h.C) {
		bad := h.Pick(c.T, "bad", "~=3.6", "===3.6", "=3.6", ">>3", "3.x", "abc", ">=", "!=3.*.1", "<=>3", "3..6", "(3.6)", "≥3")
		good := h.Pick(c.T, "good", ">=2", "3", "!=3.1", "<4")
		s := bad
		switch h.Int(c.T, "where", 0, 2) {
		case 1:
			s = good + "," + bad
		case 2:
			s = bad + "," + good
		}
		if have, err := pep345.HaveRequiredPython(mv{Rel: []int{3, 6}, Post: -1, Dev: -1}.real(), s); err == nil {
			c.Fatalf("requirement %q gives %v and no error", s, have)
		}
		c.Nontrivial(s)
	})

	p.Run("version_info", 24000, 90000, func(c *h.C) {
		vi := python.VersionInfo{Major: h.Int(c.T, "major", 0, 4), Minor: h.Int(c.T, "minor", 0, 20), Micro: h.Int(c.T, "micro", 0, 20),
			ReleaseLevel: h.Pick(c.T, "level", "alpha", "beta", "candidate", "final", "", "gamma", "Final", "rc"), Serial: h.Int(c.T, "serial", 0, 5)}
		want := mv{Rel: []int{vi.Major, vi.Minor, vi.Micro}, Post: -1, Dev: -1}
		switch vi.ReleaseLevel {
		case "alpha":
			want.PreL, want.PreN = "a", vi.Serial
		case "beta":
			want.PreL, want.PreN = "b", vi.Serial
		case "candidate":
			want.PreL, want.PreN = "rc", vi.Serial
		case "final":
		default:
			if v, err := vi.PEP440(); err == nil {
				c.Fatalf("%+v gives %v and no error", vi, v)
			}
			return
		}
		v, err := vi.PEP440()
		if err != nil {
			c.Fatalf("%+v: %v", vi, err)
		}
		if d := want.check(*v); d != "" {
			c.Fatalf("%+v: %s", vi, d)
		}
		if want.PreL != "" {
			c.Nontrivial(want.String())
		}
	})
}
