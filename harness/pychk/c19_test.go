package pychk

import (
	"fmt"
	"strings"
	"testing"

	"k8s.io/apimachinery/pkg/util/intstr"
	"pgregory.net/rapid"

	"github.com/datawire/ocibuild/pkg/python/pep440"
	"verif.local/harness/h"
)

type pyVersion struct {
	OK      bool          `json:"ok"`
	Str     string        `json:"str"`
	Public  string        `json:"public"`
	Pre     bool          `json:"pre"`
	Release []interface{} `json:"release"`
}

// hugeNumber reports whether a number does not fit in 63 bits.
func hugeNumber(s string) bool {
	if i := strings.IndexByte(s, '+'); i >= 0 {
		s = s[:i]
	}
	for _, f := range strings.FieldsFunc(s, func(r rune) bool { return r < '0' || r > '9' }) {
		f = strings.TrimLeft(f, "0")
		if len(f) > 19 || (len(f) == 19 && f > "9223372036854775807") {
			return true
		}
	}
	return false
}

// spoil changes everything in a version.
func spoil(r *pep440.Version) {
	r.Epoch++
	for i := range r.Release {
		r.Release[i] += 7
	}
	if r.Pre != nil {
		r.Pre.N += 7
	}
	if r.Post != nil {
		*r.Post += 7
	}
	if r.Dev != nil {
		*r.Dev += 7
	}
	for i := range r.Local {
		r.Local[i] = intstr.FromString("spoilt")
	}
}

func TestC19(t *testing.T) {
	p := h.Start(t, "C19", "a spelling that is not the normal form; for 'mutate' a string that Python's packaging accepts and that is not in normal form, or refuses; for 'struct' a version with at least two parts besides the release")
	p.Assume("numbers in a public version fit in 63 bits; version strings are ASCII apart from stray characters that make them invalid")

	p.Run("spelling", 72000, 1200000, func(c *h.C) {
		v := genMV(c.T)
		s := spell(c.T, v)
		r := parse(c, s)
		if d := v.check(*r); d != "" {
			c.Fatalf("%q (%s): %s", s, v, d)
		}
		again := parse(c, r.String())
		if d := v.check(*again); d != "" {
			c.Fatalf("%q (%s) again: %s", r.String(), v, d)
		}
		if r.Cmp(*again) != 0 {
			c.Fatalf("%q and its normal form %q are not equal", s, r.String())
		}
		if s != v.String() {
			c.Nontrivial(s)
		}
		c.LabelIf(len(v.Local) > 0, "local")
		c.LabelIf(v.Epoch > 0, "epoch")
	})

	p.Run("mutate", 48000, 600000, func(c *h.C) {
		s := spell(c.T, genMV(c.T))
		const alphabet = "0123456789..--__++!vabcrdeposthl \n*x"
		for n := h.Int(c.T, "n", 0, 3); n > 0; n-- {
			i := h.Int(c.T, "i", 0, len(s))
			ch := string(alphabet[h.Int(c.T, "ch", 0, len(alphabet)-1)])
			if h.OneIn(c.T, "odd", 12) {
				ch = h.Pick(c.T, "oddch", "\u0660", "\u00e4", "\u00b2", "\uff11", "\x00", "\u2003", "=", ",", "~", "(", "$")
			}
			switch h.Int(c.T, "op", 0, 3) {
			case 0:
				s = s[:i] + ch + s[i:]
			case 1:
				if i < len(s) {
					s = s[:i] + s[i+1:]
				}
			case 2:
				if i < len(s) {
					s = s[:i] + ch + s[i+1:]
				}
			default:
				w := h.Pick(c.T, "word", "a", "b", "rc", "c", "post", "rev", "r", "dev", "alpha", "preview", ".*", "+", "!", "-1", ".dev", "rc1", "++", "..", "1!", "v")
				s = s[:i] + w + s[i:]
			}
		}
		s = strings.ToValidUTF8(s, "?")
		if hugeNumber(s) {
			return
		}
		if strings.ContainsRune(s, '\u2003') {
			return // Unicode whitespace: not judged
		}
		var want pyVersion
		ask(map[string]interface{}{"op": "version", "s": s}, &want)
		var r *pep440.Version
		err := h.Try(func() (err error) { r, err = pep440.ParseVersion(s); return })
		if err != nil && strings.HasPrefix(err.Error(), "PANIC") {
			c.Fatalf("%q: %v", s, err)
		}
		if (err == nil) != want.OK {
			c.Fatalf("%q: error is %v, but valid is %v", s, err, want.OK)
		}
		if !want.OK {
			c.Label("invalid")
			c.Nontrivial(s)
			return
		}
		if r.String() != want.Str || r.PublicVersion.String() != want.Public || r.IsPreRelease() != want.Pre || len(r.Release) != len(want.Release) {
			c.Fatalf("%q: got %q, public %q, pre-release %v; want %+v", s, r.String(), r.PublicVersion.String(), r.IsPreRelease(), want)
		}
		c.Label("valid")
		if s != want.Str {
			c.Nontrivial(s)
		}
	})

	// the same and similar strings again and again, the results changed in between
	p.Run("own", 8000, 100000, func(c *h.C) {
		type pair struct {
			v mv
			s string
			r *pep440.Version
		}
		var strs, live []pair
		for n := h.Int(c.T, "strings", 1, 3); n > 0; n-- {
			v := genMV(c.T)
			strs = append(strs, pair{v: v, s: spell(c.T, v)})
		}
		changed := false
		h.Repeat(c.T, "steps", 2, 10, func(t *rapid.T) {
			if len(live) == 0 || h.Weighted(t, "step", 2, 1) == 0 {
				x := strs[h.Int(t, "which", 0, len(strs)-1)]
				switch h.Int(t, "how", 0, 2) {
				case 0:
					x.r = parse(c, x.s)
				case 1:
					orig := x.v.real()
					n, err := orig.Normalize()
					if err != nil {
						c.Fatalf("%s: %v", x.v, err)
					}
					spoil(&orig)
					x.r = n
				case 2:
					orig := x.v.real()
					pub, err := orig.PublicVersion.Normalize()
					if err != nil {
						c.Fatalf("%s: %v", x.v, err)
					}
					x.r = &pep440.Version{PublicVersion: *pub, Local: x.v.real().Local}
				}
				live = append(live, x)
			} else {
				i := h.Int(t, "spoil", 0, len(live)-1)
				spoil(live[i].r)
				live = append(live[:i:i], live[i+1:]...)
				changed = true
			}
			for _, x := range live {
				if d := x.v.check(*x.r); d != "" {
					c.Fatalf("%q (%s), after other versions were changed: %s", x.s, x.v, d)
				}
			}
		})
		if changed && len(live) > 0 {
			c.Nontrivial(fmt.Sprint(strs, len(live)))
		}
	})

	// versions that did not come from the parser
	p.Run("struct", 24000, 300000, func(c *h.C) {
		v := genMV(c.T)
		r := v.real()
		if d := v.check(r); d != "" {
			c.Fatalf("%s: %s", v, d)
		}
		odd := r
		if r.Pre != nil {
			pre := *r.Pre
			switch pre.L {
			case "a":
				pre.L = "alpha"
			case "b":
				pre.L = "beta"
			default:
				pre.L = h.Pick(c.T, "alias", "c", "pre", "preview")
			}
			odd.Pre = &pre
		}
		var n *pep440.LocalVersion
		var pub *pep440.PublicVersion
		err := h.Try(func() (err error) {
			if n, err = odd.Normalize(); err != nil {
				return err
			}
			pub, err = odd.PublicVersion.Normalize()
			return err
		})
		if err != nil {
			c.Fatalf("%s: %v", v, err)
		}
		if d := v.check(*n); d != "" {
			c.Fatalf("normalized %s: %s", v, d)
		}
		if pub.String() != v.public() {
			c.Fatalf("normalized public %s: %s", v, pub)
		}
		if odd.Cmp(r) != 0 || r.Cmp(odd) != 0 {
			c.Fatalf("%v and %v are not equal", odd, r)
		}
		parts := 0
		for _, b := range []bool{v.Epoch > 0, v.PreL != "", v.Post >= 0, v.Dev >= 0, len(v.Local) > 0} {
			if b {
				parts++
			}
		}
		if parts >= 2 {
			c.Nontrivial(v.String())
		}
	})
}
