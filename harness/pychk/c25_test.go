package pychk

import (
	"context"
	"fmt"
	"io"
	"log"
	"net/http"
	"strings"
	"testing"

	"github.com/datawire/dlib/dlog"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pypa/simple_repo_api"
	"verif.local/harness/h"
)

// quiet is a context whose log goes nowhere.
func quiet() context.Context {
	lg := logrus.New()
	lg.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	return dlog.WithLogger(context.Background(), dlog.WrapLogrus(lg))
}

type file struct {
	V       mv
	Build   *buildTag
	Tag     pep425.Tag
	Req     string
	ReqOK   bool
	Yanked  bool
	Name    string
	IsWheel bool
}

func TestC25(t *testing.T) {
	p := h.Start(t, "C25", "a page on which at least two versions match and something (tags, required Python, yanking, pre-release) rules out or ranks down at least one wheel")
	p.Assume("all files of a version are yanked or none are; which of several build tags wins is not judged, only that, with all build tags distinct, it does not depend on the order of the links; with only excluded candidates, the choice between a yanked and a pre-release one is not judged")

	p.Run("select", 32000, 450000, func(c *h.C) {
		ctx := quiet()
		base := mv{Rel: []int{h.Int(c.T, "r0", 0, 2), h.Int(c.T, "r1", 0, 2)}, Post: -1, Dev: -1}
		py := mv{Rel: []int{3, h.Int(c.T, "py1", 5, 12), h.Int(c.T, "py2", 0, 3)}, Post: -1, Dev: -1}
		if h.OneIn(c.T, "pypre", 8) {
			py.PreL, py.PreN = "rc", 1
		}
		var inst pep425.Installer
		for n := h.Int(c.T, "ninst", 1, 5); len(inst) < n; {
			inst = append(inst, genTag(c.T, false))
		}
		inst = append(inst, pep425.Tag{Python: "py3", ABI: "none", Platform: "any"})

		seenV := map[string]bool{}
		var files []file
		for n := h.Size(c.T, "nver", 1, 6, 12, 60); n > 0; n-- {
			v := vary(c.T, base)
			if rapid.Bool().Draw(c.T, "final") {
				v.PreL, v.PreN, v.Dev = "", 0, -1
			}
			if seenV[v.canon()] {
				continue
			}
			seenV[v.canon()] = true
			yanked := h.OneIn(c.T, "yanked", 4)
			seenF := map[string]bool{}
			for k := h.Size(c.T, "nfiles", 1, 4, 12, 60); k > 0; k-- {
				f := file{V: v, Yanked: yanked, ReqOK: true, IsWheel: true}
				if h.OneIn(c.T, "respelled", 3) { // the same version, as 1.0 and 1.0.0
					f.V.Rel = append(append([]int(nil), v.Rel...), make([]int, h.Int(c.T, "zeros", 0, 2))...)
				}
				v := f.V
				if h.OneIn(c.T, "sdist", 6) {
					f.IsWheel = false
					f.Name = h.Pick(c.T, "sdistname", "foo-bar-"+v.String()+".tar.gz", "foo_bar-"+v.String()+"-py3.6.egg", "foo_bar-"+v.String()+".whl", "foo_bar.whl",
						"foobar-"+v.String()+"-"+inst[0].String()+".whl", "foo-"+v.String()+"-"+inst[0].String()+".whl", "foo_bar_baz-"+v.String()+"-"+inst[0].String()+".whl")
				} else {
					if h.OneIn(c.T, "build", 3) {
						f.Build = &buildTag{h.Int(c.T, "bn", 1, 12), h.Pick(c.T, "bs", "", "a", "b")}
					}
					if rapid.Bool().Draw(c.T, "supported") {
						f.Tag = inst[h.Int(c.T, "inst", 0, len(inst)-1)]
						if h.OneIn(c.T, "compressed", 3) {
							o := genTag(c.T, false)
							if o.Python != f.Tag.Python {
								f.Tag.Python += "." + o.Python
							}
						}
					} else {
						f.Tag = genTag(c.T, rapid.Bool().Draw(c.T, "compressed"))
					}
					b := ""
					if f.Build != nil {
						b = fmt.Sprintf("-%d%s", f.Build.N, f.Build.S)
					}
					f.Name = h.Pick(c.T, "spelled", "foo_bar", "foo_bar", "Foo_Bar", "foo.bar", "FOO__bar") + "-" + v.String() + b + "-" + f.Tag.String() + ".whl"
				}
				if seenF[f.Name] {
					continue
				}
				seenF[f.Name] = true
				switch h.Weighted(c.T, "req", 4, 4, 1) {
				case 1:
					rv := mv{Rel: append([]int(nil), py.Rel[:h.Int(c.T, "reqlen", 1, 3)]...), Post: -1, Dev: -1}
					if rapid.Bool().Draw(c.T, "bump") {
						rv.Rel[len(rv.Rel)-1] += h.Int(c.T, "by", -1, 1)
						if rv.Rel[len(rv.Rel)-1] < 0 {
							rv.Rel[len(rv.Rel)-1] = 0
						}
					}
					op := h.Pick(c.T, "op", ">=", ">=", "<", "!=", ">", "<=", "==", "")
					f.Req = op + rv.String()
					f.ReqOK = match345(op, rv, py)
					if h.OneIn(c.T, "two", 3) {
						f.Req += ", <4"
					}
				case 2:
					f.Req = h.Pick(c.T, "badreq", "???", ">=3.x")
				}
				files = append(files, f)
			}
		}
		for i := len(files) - 1; i > 0; i-- {
			j := h.Int(c.T, "shuffle", 0, i)
			files[i], files[j] = files[j], files[i]
		}

		var cls []clause
		specStr := ""
		for n := h.Weighted(c.T, "nclauses", 6, 6, 1); len(cls) < n; {
			cl := clause{Op: h.Pick(c.T, "op", ">=", "!=", "<=", "~=", "==", "<", ">", ">=", "!="), V: vary(c.T, base)}
			cl.Prefix = (cl.Op == "==" || cl.Op == "!=") && rapid.Bool().Draw(c.T, "prefix")
			cl = cl.fix()
			cls = append(cls, cl)
			specStr += "," + cl.String()
		}
		spec, err := pep440.ParseSpecifier(specStr)
		if err != nil {
			c.Fatalf("%q: %v", specStr, err)
		}
		withPython := !h.OneIn(c.T, "nopython", 5)

		// the model
		var best *mv
		bestAllowed, ruled := false, false
		matching := map[string]bool{}
		yankedExcl, preExcl := false, false
		for _, f := range files {
			f := f
			if !f.IsWheel {
				continue
			}
			if (withPython && !f.ReqOK) || !inst.Supports(f.Tag) {
				ruled = true
				continue
			}
			if !spec.Match(f.V.real()) {
				continue
			}
			matching[f.V.canon()] = true
			a := !f.Yanked && !f.V.isPre()
			if !a {
				ruled = true
				yankedExcl = yankedExcl || f.Yanked
				preExcl = preExcl || !f.Yanked
			}
			if best == nil || (a && !bestAllowed) || (a == bestAllowed && cmpVer(*best, f.V) < 0) { // (whichever spelling)
				best, bestAllowed = &f.V, a
			}
		}
		judged := best == nil || bestAllowed || !(yankedExcl && preExcl)
		rank := 1 << 30
		accept := map[string]bool{}
		var top *buildTag
		if best != nil {
			for _, f := range files {
				if !f.IsWheel || (withPython && !f.ReqOK) || !inst.Supports(f.Tag) || f.V.canon() != best.canon() {
					continue
				}
				r := 0
				for i := range inst {
					if modelSupports(inst[i], f.Tag) {
						r = i
						break
					}
				}
				if r < rank {
					rank, accept, top = r, map[string]bool{}, f.Build
				}
				if r == rank {
					if d := cmpBuild(f.Build, top); d > 0 {
						top, accept = f.Build, map[string]bool{}
					} else if d < 0 {
						continue
					}
					accept[f.Name] = true
				}
			}
		}

		run := func(files []file) (string, error) {
			var links []anchor
			for _, f := range files {
				a := anchor{Text: f.Name, HRef: "../../packages/" + f.Name}
				if f.Req != "" {
					a.Attrs = append(a.Attrs, [2]string{"data-requires-python", f.Req})
				}
				if f.Yanked {
					a.Attrs = append(a.Attrs, [2]string{"data-yanked", h.Pick(c.T, "reason", "", "broken", "false")})
				}
				links = append(links, a)
			}
			net := &fakeNet{pages: map[string]page{"http://pypi.test/simple/foo-bar/": {Status: 200, Body: render(c.T, links, h.Pick(c.T, "meta", "", "1.0", "1.1"))}}}
			var pv *pep440.Version
			if withPython {
				r := py.real()
				pv = &r
			}
			client := simple_repo_api.NewClient(pv, inst)
			client.BaseURL = "http://pypi.test/simple/"
			client.HTTPClient = &http.Client{Transport: net}
			name := h.Pick(c.T, "name", "foo-bar", "Foo_Bar", "FOO.bar", "foo--bar", "foo_-.bar")
			var text string
			err := h.Try(func() error {
				l, err := client.SelectWheel(ctx, name, spec)
				if err == nil {
					text = l.Text
					if l.HRef != "http://pypi.test/packages/"+l.Text {
						return fmt.Errorf("PANIC: link of %s is %q", l.Text, l.HRef)
					}
				}
				return err
			})
			return text, err
		}
		var desc strings.Builder
		fmt.Fprintf(&desc, "%q for Python %s (%v), tags %v, of", spec.String(), py, withPython, inst)
		for _, f := range files {
			fmt.Fprintf(&desc, " %s(%s,%v)", f.Name, f.Req, f.Yanked)
		}
		got, err := run(files)
		if err != nil && strings.HasPrefix(err.Error(), "PANIC") {
			c.Fatalf("%s: %v", &desc, err)
		}
		if best == nil {
			if err == nil {
				c.Fatalf("%s: selected %s", &desc, got)
			}
		} else {
			if err != nil {
				c.Fatalf("%s: %v", &desc, err)
			}
			if judged && !accept[got] {
				c.Fatalf("%s: selected %s, want one of %v", &desc, got, accept)
			}
		}
		for i := len(files) - 1; i > 0; i-- {
			j := h.Int(c.T, "shuffle", 0, i)
			files[i], files[j] = files[j], files[i]
		}
		got2, err2 := run(files)
		builds := map[string]bool{}
		for _, f := range files {
			if accept[f.Name] {
				builds[fmt.Sprint(f.Build.real())] = true
			}
		}
		if (err == nil) != (err2 == nil) || (judged && got != got2 && len(builds) == len(accept)) {
			c.Fatalf("%s: selected %s (%v), and with the links in another order %s (%v)", &desc, got, err, got2, err2)
		}
		c.LabelIf(best == nil, "none")
		c.LabelIf(best != nil && !bestAllowed, "only excluded")
		c.LabelIf(len(accept) > 1, "tie")
		if len(matching) >= 2 && ruled {
			c.Nontrivial(desc.String())
		}
	})
}
