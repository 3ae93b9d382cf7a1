package pychk

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"verif.local/harness/h"
)

func genTagPart(t *rapid.T, label string, vals ...string) string {
	parts := rapid.SliceOfNDistinct(rapid.SampledFrom(vals), 1, 3, rapid.ID[string]).Draw(t, label)
	return strings.Join(parts, ".")
}

func genTag(t *rapid.T, compressed bool) pep425.Tag {
	py := []string{"py2", "py3", "cp36", "cp39", "cp310", "py39"}
	abi := []string{"none", "abi3", "cp36m", "cp39"}
	plat := []string{"any", "linux_x86_64", "manylinux1_x86_64", "manylinux2014_x86_64", "win32"}
	if !compressed {
		return pep425.Tag{Python: h.Pick(t, "py", py...), ABI: h.Pick(t, "abi", abi...), Platform: h.Pick(t, "plat", plat...)}
	}
	return pep425.Tag{Python: genTagPart(t, "py", py...), ABI: genTagPart(t, "abi", abi...), Platform: genTagPart(t, "plat", plat...)}
}

// modelSupports is the model of compressed tag sets: every part in common.
func modelSupports(a, b pep425.Tag) bool {
	common := func(x, y string) bool {
		for _, i := range strings.Split(x, ".") {
			for _, j := range strings.Split(y, ".") {
				if i == j {
					return true
				}
			}
		}
		return false
	}
	return common(a.Python, b.Python) && common(a.ABI, b.ABI) && common(a.Platform, b.Platform)
}

type buildTag struct {
	N int
	S string
}

func genBuild(t *rapid.T) *buildTag {
	if rapid.Bool().Draw(t, "nobuild") {
		return nil
	}
	return &buildTag{genNum(t), h.Pick(t, "buildstr", "", "", "a", "b", "_1", "a1", "abc", "x_y.z")}
}

func (b *buildTag) real() *bdist.BuildTag {
	if b == nil {
		return nil
	}
	return &bdist.BuildTag{Int: b.N, Str: b.S}
}

func cmpBuild(a, b *buildTag) int {
	switch {
	case a == nil && b == nil:
		return 0
	case a == nil:
		return -1
	case b == nil:
		return 1
	}
	if c := cmpInt(a.N, b.N); c != 0 {
		return c
	}
	return strings.Compare(a.S, b.S)
}

func TestC24(t *testing.T) {
	p := h.Start(t, "C24", "file names with a build tag or a version that is not a plain final release; invalid file names; tag sets of which at least one has several members")

	p.Run("filename", 75000, 900000, func(c *h.C) {
		dist := rapid.StringMatching(`[A-Za-z0-9][A-Za-z0-9_]{0,6}`).Draw(c.T, "dist")
		v := genMV(c.T)
		b := genBuild(c.T)
		tag := genTag(c.T, true)
		build := ""
		if b != nil {
			build = "-" + genSpelledNum(c.T, b.N) + b.S
		}
		verStr := v.String()
		if rapid.Bool().Draw(c.T, "odd spelling") {
			verStr = strings.ReplaceAll(spell(c.T, v), "-", "_")
			if i := regexp.MustCompile(`[0-9]_[0-9]`).FindStringIndex(strings.SplitN(verStr, "+", 2)[0]); i != nil {
				verStr = v.String() // this would have been "1.0-1"
			}
		}
		name := dist + "-" + verStr + build + "-" + tag.Python + "-" + tag.ABI + "-" + tag.Platform + ".whl"
		d, err := bdist.ParseFilename(name)
		if err != nil {
			c.Fatalf("%q is refused: %v", name, err)
		}
		if d.Distribution != dist || d.CompatibilityTag != tag || (d.BuildTag == nil) != (b == nil) ||
			(b != nil && (d.BuildTag.Int != b.N || d.BuildTag.Str != b.S)) {
			c.Fatalf("%q is parsed as %+v (build tag %v)", name, d, d.BuildTag)
		}
		if diff := v.check(d.Version); diff != "" {
			c.Fatalf("%q: %s", name, diff)
		}
		back, err := bdist.GenerateFilename(*d)
		if err != nil {
			c.Fatalf("%q: generating: %v", name, err)
		}
		canon := regexp.MustCompile(`_+`).ReplaceAllString(dist, "_") + "-" + v.String()
		if b != nil {
			canon += "-" + strconv.Itoa(b.N) + b.S
		}
		canon += "-" + tag.String() + ".whl"
		if back != canon {
			c.Fatalf("%q becomes %q, want %q", name, back, canon)
		}
		if b != nil || v.isPre() || v.Epoch > 0 || v.Post >= 0 || len(v.Local) > 0 {
			c.Nontrivial(name)
		}
	})

	p.Run("generate", 40000, 300000, func(c *h.C) {
		dist := rapid.StringMatching(`[A-Za-z0-9]([-_.]{0,3}[A-Za-z0-9]){0,4}`).Draw(c.T, "dist")
		v := genMV(c.T)
		b := genBuild(c.T)
		tag := genTag(c.T, true)
		data := bdist.FileNameData{Distribution: dist, Version: v.real(), BuildTag: b.real(), CompatibilityTag: tag}
		bad := false
		switch h.Weighted(c.T, "harm", 6, 1, 1) {
		case 1:
			data.BuildTag = &bdist.BuildTag{Int: 1, Str: h.Pick(c.T, "badbuild", "-", "-a", "a-b")}
			bad = true
		case 2:
			data.CompatibilityTag.ABI = h.Pick(c.T, "badabi", "cp39-abi3", "-", "a-")
			bad = true
		}
		name, err := bdist.GenerateFilename(data)
		if bad {
			if err == nil {
				c.Fatalf("%+v becomes %q", data, name)
			}
			c.Nontrivial(fmt.Sprintf("bad %+v", data))
			return
		}
		if err != nil {
			c.Fatalf("%+v: %v", data, err)
		}
		d, err := bdist.ParseFilename(name)
		if err != nil {
			c.Fatalf("%+v becomes %q: %v", data, name, err)
		}
		if strings.ContainsAny(d.Distribution, "-.") || strings.Contains(d.Distribution, "__") ||
			regexp.MustCompile(`[-_.]+`).ReplaceAllString(dist, "_") != d.Distribution {
			c.Fatalf("distribution %q becomes %q", dist, d.Distribution)
		}
		if diff := v.check(d.Version); diff != "" {
			c.Fatalf("%+v becomes %q: %s", data, name, diff)
		}
		if d.BuildTag.Cmp(b.real()) != 0 || d.CompatibilityTag != tag {
			c.Fatalf("%+v becomes %q", data, name)
		}
		if strings.ContainsAny(dist, "-_.") || b != nil {
			c.Nontrivial(name)
		}
	})

	p.Run("invalid", 30000, 180000, func(c *h.C) {
		name := "foo-1.0-1a-py3-none-any.whl"
		name = h.Pick(c.T, "name", name, "foo-1.0-py3-none-any.whl")
		bad := ""
		switch h.Int(c.T, "harm", 0, 7) {
		case 0:
			bad = strings.TrimSuffix(name, ".whl") + h.Pick(c.T, "ext", "", ".tar.gz", ".WHL", ".whl.asc", ".zip", ".whl ", ".whl\n", "whl")
		case 1:
			bad = h.Pick(c.T, "prefix", "-", "a-b-c-") + name
		case 2:
			bad = strings.Replace(name, "1.0", h.Pick(c.T, "ver", "", "x", "1.x", "1..0", "1_0_0", "1.0.*", "=1", "1.0+", "1!"), 1)
		case 3:
			bad = strings.Replace(name, "-py3-", h.Pick(c.T, "sep", "-", "_", "--", "-a-b-"), 1)
			if strings.Contains(bad, "-1a-none-any") && strings.Count(bad, "-") == 4 {
				return // still a valid name
			}
		case 4:
			bad = strings.Replace(strings.Replace(name, "-1a", "", 1), "-py3", h.Pick(c.T, "build", "-a1-py3", "-_1-py3", "--py3", "-x-py3"), 1)
		case 5:
			bad = strings.Replace(name, "foo", "", 1)
		case 6:
			bad = name[:h.Int(c.T, "cut", 0, len(name)-1)]
		case 7:
			bad = h.Pick(c.T, "junk", "", ".whl", "-----.whl", "foo.whl", "foo-1.0.whl", "foo-1.0.tar.gz")
		}
		var d *bdist.FileNameData
		err := h.Try(func() (err error) { d, err = bdist.ParseFilename(bad); return })
		if err == nil || strings.HasPrefix(err.Error(), "PANIC") {
			c.Fatalf("%q is parsed as %+v, %v", bad, d, err)
		}
		c.Nontrivial(bad)
	})

	p.Run("build", 25000, 180000, func(c *h.C) {
		var bs []*buildTag
		for i := 0; i < 3; i++ {
			bs = append(bs, genBuild(c.T))
		}
		if bs[0] != nil && bs[1] != nil && rapid.Bool().Draw(c.T, "same") {
			bs[1].N = bs[0].N
		}
		for _, a := range bs {
			for _, b := range bs {
				if got := a.real().Cmp(b.real()); sign(got) != cmpBuild(a, b) {
					c.Fatalf("build tag %v compared with %v gives %d, want %d", a, b, got, cmpBuild(a, b))
				}
			}
		}
		if bs[0] != nil && bs[1] != nil {
			c.Nontrivial(fmt.Sprint(*bs[0], *bs[1]))
		}
	})

	p.Run("tags", 75000, 600000, func(c *h.C) {
		var inst pep425.Installer
		for n := h.Int(c.T, "ninst", 0, 6); len(inst) < n; {
			inst = append(inst, genTag(c.T, h.OneIn(c.T, "compressed", 4)))
		}
		tag := genTag(c.T, rapid.Bool().Draw(c.T, "compressed"))
		rank := len(inst) + 1
		for i := len(inst) - 1; i >= 0; i-- {
			if modelSupports(inst[i], tag) {
				rank = i + 1
			}
		}
		desc := fmt.Sprintf("%v for %v", tag, inst)
		if got := inst.Preference(tag); got != rank {
			c.Fatalf("%s: preference is %d, want %d", desc, got, rank)
		}
		if got := inst.Supports(tag); got != (rank <= len(inst)) {
			c.Fatalf("%s: supported is %v", desc, got)
		}
		for i := range inst {
			a, b := []pep425.Tag{inst[i]}, []pep425.Tag{tag}
			if pep425.Intersect(a, b) != modelSupports(inst[i], tag) || pep425.Intersect(b, a) != modelSupports(inst[i], tag) {
				c.Fatalf("Intersect(%v, %v) is wrong", inst[i], tag)
			}
		}
		// every single tag of the set, once
		seen := map[pep425.Tag]bool{}
		for _, x := range tag.Decompress() {
			if strings.Contains(x.String(), ".") || !modelSupports(x, tag) || seen[x] {
				c.Fatalf("%v is decompressed to %v", tag, tag.Decompress())
			}
			seen[x] = true
		}
		if want := (strings.Count(tag.Python, ".") + 1) * (strings.Count(tag.ABI, ".") + 1) * (strings.Count(tag.Platform, ".") + 1); len(seen) != want {
			c.Fatalf("%v is decompressed to %d tags, want %d", tag, len(seen), want)
		}
		// text
		back, err := pep425.ParseTag(tag.String())
		if err != nil || back != tag {
			c.Fatalf("%q is parsed as %v, %v", tag.String(), back, err)
		}
		txt, err := tag.MarshalText()
		var un pep425.Tag
		if err != nil || un.UnmarshalText(txt) != nil || un != tag {
			c.Fatalf("%v is marshalled to %q and unmarshalled to %v", tag, txt, un)
		}
		bad := h.Pick(c.T, "bad", "", "py3", "py3-none", tag.String()+"-x", "-"+tag.String())
		keep := un
		if err := un.UnmarshalText([]byte(bad)); err == nil || un != keep {
			c.Fatalf("%q is unmarshalled to %v, %v", bad, un, err)
		}
		if strings.Contains(tag.String(), ".") {
			c.Nontrivial(desc)
		}
	})
}
