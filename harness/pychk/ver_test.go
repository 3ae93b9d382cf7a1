package pychk

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"k8s.io/apimachinery/pkg/util/intstr"
	"pgregory.net/rapid"

	"github.com/datawire/ocibuild/pkg/python/pep440"
	"verif.local/harness/h"
)

// mv is the reference model of a version.
type mv struct {
	Epoch int
	Rel   []int
	PreL  string // "", "a", "b" or "rc"
	PreN  int
	Post  int // -1 if there is none
	Dev   int // -1 if there is none
	Local []string
}

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

func (v mv) public() string {
	var s strings.Builder
	if v.Epoch != 0 {
		s.WriteString(strconv.Itoa(v.Epoch) + "!")
	}
	for i, n := range v.Rel {
		if i > 0 {
			s.WriteString(".")
		}
		s.WriteString(strconv.Itoa(n))
	}
	if v.PreL != "" {
		s.WriteString(v.PreL + strconv.Itoa(v.PreN))
	}
	if v.Post >= 0 {
		s.WriteString(".post" + strconv.Itoa(v.Post))
	}
	if v.Dev >= 0 {
		s.WriteString(".dev" + strconv.Itoa(v.Dev))
	}
	return s.String()
}

// String is the normal form.
func (v mv) String() string {
	s := v.public()
	if len(v.Local) > 0 {
		s += "+" + strings.Join(v.Local, ".")
	}
	return s
}

func (v mv) isPre() bool { return v.PreL != "" || v.Dev >= 0 }

func cmpInt(a, b int) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func cmpRel(a, b []int) int {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := 0, 0
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if c := cmpInt(x, y); c != 0 {
			return c
		}
	}
	return 0
}

// phase orders what comes within one release: dev < a < b < rc < the release itself.
func (v mv) phase() int {
	switch v.PreL {
	case "a":
		return 1
	case "b":
		return 2
	case "rc":
		return 3
	}
	if v.Dev >= 0 && v.Post < 0 {
		return 0
	}
	return 4
}

func cmpPub(a, b mv) int {
	if c := cmpInt(a.Epoch, b.Epoch); c != 0 {
		return c
	}
	if c := cmpRel(a.Rel, b.Rel); c != 0 {
		return c
	}
	if c := cmpInt(a.phase(), b.phase()); c != 0 {
		return c
	}
	if a.PreL != "" {
		if c := cmpInt(a.PreN, b.PreN); c != 0 {
			return c
		}
	}
	if c := cmpInt(a.Post, b.Post); c != 0 { // none (-1) before all
		return c
	}
	da, db := a.Dev, b.Dev
	if da < 0 {
		da = math.MaxInt
	}
	if db < 0 {
		db = math.MaxInt
	}
	if da == db && (a.Dev < 0) != (b.Dev < 0) { // a .dev of MaxInt
		if a.Dev < 0 {
			return 1
		}
		return -1
	}
	return cmpInt(da, db)
}

func cmpSeg(a, b string) int {
	switch da, db := digits(a), digits(b); {
	case da && !db:
		return 1
	case !da && db:
		return -1
	case da && len(a) != len(b):
		return cmpInt(len(a), len(b))
	}
	return strings.Compare(a, b)
}

func cmpVer(a, b mv) int {
	if c := cmpPub(a, b); c != 0 {
		return c
	}
	for i := 0; i < len(a.Local) && i < len(b.Local); i++ {
		if c := cmpSeg(a.Local[i], b.Local[i]); c != 0 {
			return c
		}
	}
	return cmpInt(len(a.Local), len(b.Local))
}

// ---- generators ----

func genNum(t *rapid.T) int {
	switch h.Weighted(t, "numkind", 70, 15, 8, 4) {
	case 0:
		return h.Int(t, "num", 0, 3)
	case 1:
		return h.Pick(t, "num", 9, 10, 11, 19, 20, 99, 100, 2021)
	case 2:
		return h.Pick(t, "num", 255, 256, 65535, 65536, math.MaxInt32-1, math.MaxInt32, math.MaxInt32+1, math.MaxUint32, math.MaxUint32+1)
	default:
		return h.Pick(t, "num", 1<<53, 1<<53+1, 1<<62, math.MaxInt64-1, math.MaxInt64)
	}
}

func genLocalSeg(t *rapid.T) string {
	switch h.Weighted(t, "segkind", 5, 5, 2, 1) {
	case 0:
		return strconv.Itoa(genNum(t))
	case 1:
		return h.Pick(t, "seg", "a", "b", "abc", "z", "ubuntu", "foo0100", "0x", "1a", "a1", "a10", "a9", "post1", "dev", "rc", "10a")
	case 2:
		return rapid.StringMatching(`[a-z0-9]{0,3}[a-z][a-z0-9]{0,3}`).Draw(t, "seg")
	default:
		return h.Pick(t, "seg", "9223372036854775807", "9223372036854775808", "18446744073709551616", "20211231235959123456", "99999999999999999999", "100000000000000000000")
	}
}

func genMV(t *rapid.T) mv {
	v := mv{Post: -1, Dev: -1}
	if h.OneIn(t, "epoch?", 5) {
		v.Epoch = genNum(t)
	}
	v.Rel = rapid.SliceOfN(rapid.Custom(genNum), 1, 4).Draw(t, "rel")
	if h.OneIn(t, "pre?", 3) {
		v.PreL = h.Pick(t, "prel", "a", "b", "rc")
		v.PreN = genNum(t)
	}
	if h.OneIn(t, "post?", 3) {
		v.Post = genNum(t)
	}
	if h.OneIn(t, "dev?", 3) {
		v.Dev = genNum(t)
	}
	if h.OneIn(t, "local?", 3) {
		v.Local = rapid.SliceOfN(rapid.Custom(genLocalSeg), 1, 3).Draw(t, "local")
	}
	return v
}

// vary makes a version that differs little from the given one.
func vary(t *rapid.T, v mv) mv {
	v.Rel = append([]int(nil), v.Rel...)
	v.Local = append([]string(nil), v.Local...)
	for n := h.Int(t, "nvary", 0, 2); n > 0; n-- {
		switch h.Weighted(t, "vary", 2, 3, 2, 3, 3, 3, 3, 1, 2) {
		case 0:
			v.Epoch = genNum(t)
		case 1:
			v.Rel[h.Int(t, "i", 0, len(v.Rel)-1)] = genNum(t)
		case 2:
			v.Rel = append(v.Rel, h.Pick(t, "seg", 0, 0, 0, 1))
		case 3:
			if v.PreL == "" || !h.OneIn(t, "drop", 3) {
				v.PreL, v.PreN = h.Pick(t, "prel", "a", "b", "rc"), genNum(t)
			} else {
				v.PreL, v.PreN = "", 0
			}
		case 4:
			if v.Post < 0 || !h.OneIn(t, "drop", 3) {
				v.Post = genNum(t)
			} else {
				v.Post = -1
			}
		case 5:
			if v.Dev < 0 || !h.OneIn(t, "drop", 3) {
				v.Dev = genNum(t)
			} else {
				v.Dev = -1
			}
		case 6:
			if len(v.Local) > 0 && h.OneIn(t, "drop", 3) {
				v.Local = v.Local[:len(v.Local)-1]
			} else {
				v.Local = append(v.Local, genLocalSeg(t))
			}
		case 7:
			if len(v.Rel) > 1 {
				v.Rel = v.Rel[:len(v.Rel)-1]
			}
		case 8:
			if len(v.Local) > 0 {
				v.Local[h.Int(t, "i", 0, len(v.Local)-1)] = genLocalSeg(t)
			}
		}
	}
	return v
}

func genSpelledNum(t *rapid.T, n int) string {
	s := strconv.Itoa(n)
	if h.OneIn(t, "zeros", 5) {
		s = strings.Repeat("0", h.Int(t, "nzeros", 1, 12)) + s
	}
	return s
}

func anyCase(t *rapid.T, s string) string {
	switch h.Weighted(t, "case", 6, 1, 1) {
	case 1:
		return strings.ToUpper(s)
	case 2:
		bs := []byte(s)
		for i := range bs {
			if bs[i] >= 'a' && bs[i] <= 'z' && rapid.Bool().Draw(t, "up") {
				bs[i] -= 32
			}
		}
		return string(bs)
	}
	return s
}

func genSpace(t *rapid.T) string {
	if !h.OneIn(t, "space?", 5) {
		return ""
	}
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{" ", "\t", "\n", "\r", "\f", "\v"}), 1, 3).Draw(t, "space"), "")
}

// spell writes the version in one of the ways that PEP 440 permits.
func spell(t *rapid.T, v mv) string {
	var s strings.Builder
	s.WriteString(genSpace(t))
	if h.OneIn(t, "v", 5) {
		s.WriteString(h.Pick(t, "vv", "v", "V"))
	}
	if v.Epoch != 0 || h.OneIn(t, "epoch0", 10) {
		s.WriteString(genSpelledNum(t, v.Epoch) + "!")
	}
	for i, n := range v.Rel {
		if i > 0 {
			s.WriteString(".")
		}
		s.WriteString(genSpelledNum(t, n))
	}
	sep := func(l string) string { return h.Pick(t, l, "", ".", "-", "_") }
	implicitPre := false
	if v.PreL != "" {
		s.WriteString(sep("sep1"))
		switch v.PreL {
		case "a":
			s.WriteString(anyCase(t, h.Pick(t, "l", "a", "alpha")))
		case "b":
			s.WriteString(anyCase(t, h.Pick(t, "l", "b", "beta")))
		default:
			s.WriteString(anyCase(t, h.Pick(t, "l", "rc", "c", "pre", "preview")))
		}
		sp := sep("sep2")
		s.WriteString(sp)
		if v.PreN != 0 || rapid.Bool().Draw(t, "number") {
			s.WriteString(genSpelledNum(t, v.PreN))
		} else {
			implicitPre = true
		}
	}
	if v.Post >= 0 {
		if !implicitPre && h.OneIn(t, "dash", 4) {
			s.WriteString("-" + genSpelledNum(t, v.Post))
		} else {
			s.WriteString(sep("sep3"))
			s.WriteString(anyCase(t, h.Pick(t, "l", "post", "rev", "r")))
			s.WriteString(sep("sep4"))
			if v.Post != 0 || rapid.Bool().Draw(t, "number") {
				s.WriteString(genSpelledNum(t, v.Post))
			}
		}
	}
	if v.Dev >= 0 {
		s.WriteString(sep("sep5"))
		s.WriteString(anyCase(t, "dev"))
		s.WriteString(sep("sep6"))
		if v.Dev != 0 || rapid.Bool().Draw(t, "number") {
			s.WriteString(genSpelledNum(t, v.Dev))
		}
	}
	for i, seg := range v.Local {
		if i == 0 {
			s.WriteString("+")
		} else {
			s.WriteString(h.Pick(t, "lsep", ".", "-", "_"))
		}
		if digits(seg) && h.OneIn(t, "zeros", 5) {
			s.WriteString(strings.Repeat("0", h.Int(t, "nzeros", 1, 20)))
		}
		s.WriteString(anyCase(t, seg))
	}
	s.WriteString(genSpace(t))
	return s.String()
}

// real makes the real thing of the model (without the parser).
func (v mv) real() pep440.Version {
	var r pep440.Version
	r.Epoch = v.Epoch
	r.Release = append([]int(nil), v.Rel...)
	if v.PreL != "" {
		r.Pre = &pep440.PreRelease{L: v.PreL, N: v.PreN}
	}
	if v.Post >= 0 {
		n := v.Post
		r.Post = &n
	}
	if v.Dev >= 0 {
		n := v.Dev
		r.Dev = &n
	}
	for _, seg := range v.Local {
		if n, err := strconv.ParseInt(seg, 10, 32); err == nil {
			r.Local = append(r.Local, intstr.FromInt(int(n)))
		} else {
			r.Local = append(r.Local, intstr.FromString(seg))
		}
	}
	return r
}

// check reports how the real thing differs from the model.
func (v mv) check(r pep440.Version) string {
	if r.Epoch != v.Epoch {
		return fmt.Sprintf("epoch is %d", r.Epoch)
	}
	if fmt.Sprint(r.Release) != fmt.Sprint(v.Rel) {
		return fmt.Sprintf("release is %v", r.Release)
	}
	if (r.Pre != nil) != (v.PreL != "") || (r.Pre != nil && (r.Pre.L != v.PreL || r.Pre.N != v.PreN)) {
		return fmt.Sprintf("pre-release is %v", r.Pre)
	}
	if (r.Post != nil) != (v.Post >= 0) || (r.Post != nil && *r.Post != v.Post) {
		return "post-release is wrong"
	}
	if (r.Dev != nil) != (v.Dev >= 0) || (r.Dev != nil && *r.Dev != v.Dev) {
		return "developmental release is wrong"
	}
	if len(r.Local) != len(v.Local) {
		return fmt.Sprintf("local version is %v", r.Local)
	}
	for i := range v.Local {
		if r.Local[i].String() != v.Local[i] {
			return fmt.Sprintf("local version is %v", r.Local)
		}
	}
	if s := r.String(); s != v.String() {
		return fmt.Sprintf("normal form is %q", s)
	}
	if s := r.PublicVersion.String(); s != v.public() {
		return fmt.Sprintf("public version is %q", s)
	}
	at := func(i int) int {
		if i < len(v.Rel) {
			return v.Rel[i]
		}
		return 0
	}
	if r.Major() != at(0) || r.Minor() != at(1) || r.Micro() != at(2) {
		return fmt.Sprintf("major, minor, micro are %d, %d, %d", r.Major(), r.Minor(), r.Micro())
	}
	if r.IsPreRelease() != v.isPre() {
		return fmt.Sprintf("IsPreRelease is %v", r.IsPreRelease())
	}
	final := v.PreL == "" && v.Post < 0 && v.Dev < 0
	if r.PublicVersion.IsFinal() != final || r.IsFinal() != (final && len(v.Local) == 0) {
		return fmt.Sprintf("IsFinal is %v, %v", r.PublicVersion.IsFinal(), r.IsFinal())
	}
	return ""
}

func sign(n int) int { return cmpInt(n, 0) }

func parse(c *h.C, s string) *pep440.Version {
	var r *pep440.Version
	err := h.Try(func() (err error) { r, err = pep440.ParseVersion(s); return })
	if err != nil {
		c.Fatalf("version %q is refused: %v", s, err)
	}
	return r
}
