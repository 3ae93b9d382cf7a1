package pychk

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/datawire/ocibuild/pkg/python/pep440"
	"verif.local/harness/h"
)

// clause is the reference model of a specifier clause.
type clause struct {
	Op     string // "~=", "==", "!=", "<=", ">=", "<" or ">"
	Prefix bool   // ".*"
	V      mv
}

func (cl clause) String() string {
	s := cl.Op + cl.V.String()
	if cl.Prefix {
		s += ".*"
	}
	return s
}

// valid is whether PEP 440 permits the clause.
func (cl clause) valid() bool {
	eq := cl.Op == "==" || cl.Op == "!="
	switch {
	case cl.Prefix && (!eq || cl.V.Dev >= 0 || len(cl.V.Local) > 0):
		return false
	case len(cl.V.Local) > 0 && !eq:
		return false
	case cl.Op == "~=" && len(cl.V.Rel) < 2:
		return false
	}
	return true
}

func prefixMatch(spec, v mv) bool {
	if spec.Epoch != v.Epoch {
		return false
	}
	rel := v.Rel
	if spec.PreL == "" && spec.Post < 0 && len(rel) > len(spec.Rel) {
		rel = rel[:len(spec.Rel)]
	}
	if cmpRel(spec.Rel, rel) != 0 {
		return false
	}
	if spec.PreL == "" && spec.Post < 0 {
		return true
	}
	if spec.PreL != v.PreL || spec.PreN != v.PreN {
		return false
	}
	return spec.Post < 0 || spec.Post == v.Post
}

// match is the model's answer; judged is false where PEP 440 and this code base's own tests leave
// the answer open.
func (cl clause) match(v mv) (ok, judged bool) {
	sameBase := cl.V.Epoch == v.Epoch && cmpRel(cl.V.Rel, v.Rel) == 0
	switch cl.Op {
	case "~=":
		prefix := mv{Epoch: cl.V.Epoch, Rel: cl.V.Rel[:len(cl.V.Rel)-1], Post: -1, Dev: -1}
		return cmpPub(v, cl.V) >= 0 && prefixMatch(prefix, v), true
	case "==", "!=":
		var eq bool
		switch {
		case cl.Prefix:
			eq = prefixMatch(cl.V, v)
		case len(cl.V.Local) > 0:
			eq = cmpVer(v, cl.V) == 0
		default:
			eq = cmpPub(v, cl.V) == 0
		}
		return eq == (cl.Op == "=="), true
	case "<=":
		return cmpPub(v, cl.V) <= 0, true
	case ">=":
		return cmpPub(v, cl.V) >= 0, true
	case "<":
		if sameBase && v.isPre() && !cl.V.isPre() {
			return false, false
		}
		return cmpPub(v, cl.V) < 0, true
	default:
		if sameBase && v.Post >= 0 && cl.V.Post < 0 {
			if cl.V.Dev >= 0 || cl.V.PreL != v.PreL || cl.V.PreN != v.PreN {
				return false, false
			}
			return false, true
		}
		if sameBase && len(v.Local) > 0 && cmpPub(v, cl.V) > 0 {
			return false, false
		}
		return cmpPub(v, cl.V) > 0, true
	}
}

func genClause(t *rapid.T) clause {
	cl := clause{Op: h.Pick(t, "op", "~=", "==", "!=", "<=", ">=", "<", ">"), V: genMV(t)}
	cl.Prefix = (cl.Op == "==" || cl.Op == "!=") && rapid.Bool().Draw(t, "prefix")
	return cl
}

// fix makes a clause valid.
func (cl clause) fix() clause {
	if cl.Op == "~=" && len(cl.V.Rel) < 2 {
		cl.V.Rel = append(append([]int(nil), cl.V.Rel...), 0)
	}
	if cl.Prefix {
		cl.V.Dev = -1
	}
	if cl.Prefix || (cl.Op != "==" && cl.Op != "!=") {
		cl.V.Local = nil
	}
	return cl
}

func (cl clause) spell(t *rapid.T) string {
	s := genSpace(t) + cl.Op + spell(t, cl.V)
	if cl.Prefix {
		s = strings.TrimRight(s, " \t\n\r\f\v") + ".*" + genSpace(t)
	}
	return s
}

// candidate makes a version that is near the one in a clause.
func candidate(t *rapid.T, cl clause) mv {
	v := vary(t, cl.V)
	switch h.Int(t, "shape", 0, 5) {
	case 0:
		v.PreL, v.PreN, v.Dev = "", 0, -1
	case 1:
		v.Local = nil
	case 2:
		if len(v.Rel) > 1 {
			v.Rel = v.Rel[:len(v.Rel)-1]
		}
	case 3:
		v.Rel = append(v.Rel, h.Int(t, "more", 0, 2))
	}
	return v
}

func TestC21(t *testing.T) {
	p := h.Start(t, "C21", "the specifier has a clause whose version has the same epoch and release as a judged candidate or is a prefix of it; for 'parse' a clause that must be refused or is not in normal form")
	p.Assume("whether <V matches pre-releases of V, and >V post-releases or local versions of another pre-release of V's release, is not judged (PEP 440, packaging and the repository's own tests disagree)")

	p.Run("match", 90000, 1800000, func(c *h.C) {
		var cls []clause
		var strs []string
		for i, n := 0, h.Weighted(c.T, "nclauses", 1, 12, 5, 2); i < n; i++ {
			cl := genClause(c.T).fix()
			if i > 0 && rapid.Bool().Draw(c.T, "near") {
				cl.V = vary(c.T, cls[0].V)
				cl = cl.fix()
			}
			cls = append(cls, cl)
			strs = append(strs, cl.spell(c.T))
			if h.OneIn(c.T, "empty", 12) {
				strs = append(strs, h.Pick(c.T, "emptyclause", "", " ", "\t"))
			}
		}
		str := strings.Join(strs, ",")
		var spec pep440.Specifier
		if err := h.Try(func() (err error) { spec, err = pep440.ParseSpecifier(str); return }); err != nil {
			c.Fatalf("specifier %q is refused: %v", str, err)
		}
		if len(spec) != len(cls) {
			c.Fatalf("specifier %q has %d clauses", str, len(spec))
		}
		var norm []string
		for _, cl := range cls {
			norm = append(norm, cl.String())
		}
		if got := spec.String(); got != strings.Join(norm, ",") {
			c.Fatalf("specifier %q is formatted as %q", str, got)
		}
		spec2, err := pep440.ParseSpecifier(spec.String())
		if err != nil {
			c.Fatalf("specifier %q is refused: %v", spec.String(), err)
		}
		nontrivial := false
		var vs []mv
		for i := 0; i < 4; i++ {
			v := genMV(c.T)
			if len(cls) > 0 && !h.OneIn(c.T, "fresh", 5) {
				v = candidate(c.T, cls[h.Int(c.T, "of", 0, len(cls)-1)])
			}
			vs = append(vs, v)
			r := v.real()
			all, judged := true, true
			for j, cl := range cls {
				ok, jd := cl.match(v)
				if jd {
					if got := spec[j].Match(r); got != ok {
						c.Fatalf("%s matches %s: %v, want %v", cl, v, got, ok)
					}
					if got := (pep440.Specifier{spec[j]}).Match(r); got != ok {
						c.Fatalf("%s alone matches %s: %v, want %v", cl, v, got, ok)
					}
					if v.Epoch == cl.V.Epoch && prefixMatch(mv{Epoch: cl.V.Epoch, Rel: cl.V.Rel, Post: -1, Dev: -1}, v) {
						nontrivial = true
					}
					c.Label(fmt.Sprintf("%s %v", cl.Op, ok))
				}
				judged = judged && (jd || !all)
				if jd && !ok {
					all = false
					judged = true
				}
			}
			if got := spec.Match(r); judged && got != all {
				c.Fatalf("%s matches %s: %v, want %v", spec, v, got, all)
			}
			if a, b := spec.Match(r), spec2.Match(r); a != b {
				c.Fatalf("%s matches %s: %v; once formatted and parsed again: %v", str, v, a, b)
			}
			if d := v.check(r); d != "" {
				c.Fatalf("matching %s with %s changed it: %s", v, str, d)
			}
		}
		if got := spec.String(); got != strings.Join(norm, ",") {
			c.Fatalf("after matching %v, specifier %q is formatted as %q", vs, str, got)
		}
		if nontrivial {
			c.Nontrivial(str + " " + fmt.Sprint(vs))
		}
	})

	p.Run("parse", 45000, 600000, func(c *h.C) {
		cl := genClause(c.T)
		if h.OneIn(c.T, "prefix anyway", 6) {
			cl.Prefix = true
		}
		s := cl.spell(c.T)
		valid := cl.valid()
		switch h.Weighted(c.T, "harm", 8, 1, 1, 1, 1, 1) {
		case 1:
			s, valid = strings.TrimLeft(s, " \t\n\r\f\v~=!<>"), false
		case 2:
			s, valid = "==="+strings.TrimLeft(s, " \t\n\r\f\v~=!<>"), false
		case 3:
			s, valid = h.Pick(c.T, "op", "=", "!", "~", "=>", "=<", "<>", "><", "!==", "~==", "^", "≥", "== ==")+strings.TrimLeft(s, " \t\n\r\f\v~=!<>"), false
		case 4:
			s, valid = cl.Op, false
		case 5:
			s, valid = cl.Op+h.Pick(c.T, "junk", "abc", "*", "1.x", "1..0", "1.0.*.*", ".1", "1.0+", "1.0 0", "1.*.0", "!1"), false
		}
		good := h.Pick(c.T, "good", "", "==1.0,", ">=0,", "!=2.*,")
		if h.OneIn(c.T, "after", 3) {
			s = s + "," + strings.TrimSuffix(good, ",")
		} else {
			s = good + s
		}
		var spec pep440.Specifier
		err := h.Try(func() (err error) { spec, err = pep440.ParseSpecifier(s); return })
		if err != nil && strings.HasPrefix(err.Error(), "PANIC") {
			c.Fatalf("%q: %v", s, err)
		}
		if (err == nil) != valid {
			c.Fatalf("specifier %q: error is %v, but valid is %v (parsed as %v)", s, err, valid, spec)
		}
		c.LabelIf(!valid, "invalid")
		if !valid || s != cl.String() {
			c.Nontrivial(s)
		}
	})

	p.Run("packaging", 24000, 450000, func(c *h.C) {
		cl := genClause(c.T).fix()
		if cl.Prefix {
			cl.V.PreL, cl.V.PreN, cl.V.Post = "", 0, -1
		}
		vs := []string{}
		var rs []pep440.Version
		near := false
		for i := 0; i < 4; i++ {
			v := candidate(c.T, cl)
			if _, judged := cl.match(v); !judged {
				continue
			}
			if (cl.Prefix || cl.Op == "~=") && (len(v.Rel) < len(cl.V.Rel) || cl.V.Epoch > 0) {
				continue // this version of packaging gets these wrong
			}
			near = near || (v.Epoch == cl.V.Epoch && cmpRel(v.Rel, cl.V.Rel) == 0)
			vs = append(vs, v.String())
			rs = append(rs, v.real())
		}
		var want struct {
			OK    bool
			Match []bool
		}
		s := cl.String()
		ask(map[string]interface{}{"op": "spec", "spec": s, "vs": vs}, &want)
		if !want.OK {
			h.Infra("packaging refuses %q", s)
		}
		spec, err := pep440.ParseSpecifier(s)
		if err != nil {
			c.Fatalf("%q: %v", s, err)
		}
		for i := range vs {
			if got := spec.Match(rs[i]); got != want.Match[i] {
				c.Fatalf("%s matches %s: %v; Python says %v", s, vs[i], got, want.Match[i])
			}
		}
		if near {
			c.Nontrivial(s + " " + fmt.Sprint(vs))
		}
	})
}
