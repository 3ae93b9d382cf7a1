package whlchk

import (
	"archive/tar"
	"encoding/csv"
	"fmt"
	"os"
	"path"
	"strings"
	"testing"
	"time"

	"github.com/datawire/ocibuild/pkg/python/pep376"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"pgregory.net/rapid"

	"verif.local/harness/h"
	"verif.local/harness/wh"
)

// pipURL makes a URL record of a kind that all versions of pip write the same way.
func pipURL(t *rapid.T) (*direct_url.DirectURL, map[string]interface{}) {
	url := strings.Map(func(r rune) rune {
		if r <= ' ' || r == 0x2028 || r == '#' || r == '?' {
			return -1 // pip drops some of these
		}
		return r
	}, genText(t, "url"))
	d := direct_url.DirectURL{URL: "https://example.com/" + url}
	m := map[string]interface{}{"url": d.URL}
	switch h.Int(t, "kind", 0, 3) {
	case 0:
		return nil, nil
	case 1:
		d.ArchiveInfo = &direct_url.ArchiveInfo{}
		m["archive_info"] = map[string]interface{}{}
	case 2:
		d.VCSInfo = &direct_url.VCSInfo{VCS: "git", CommitID: "c" + genText(t, "commit")}
		x := map[string]interface{}{"vcs": "git", "commit_id": d.VCSInfo.CommitID}
		if rapid.Bool().Draw(t, "rev") {
			d.VCSInfo.RequestedRevision = "r" + genText(t, "rev")
			x["requested_revision"] = d.VCSInfo.RequestedRevision
		}
		m["vcs_info"] = x
	case 3:
		d.DirInfo = &direct_url.DirInfo{Editable: rapid.Bool().Draw(t, "editable")}
		m["dir_info"] = map[string]interface{}{"editable": d.DirInfo.Editable}
	}
	return &d, m
}

// recordRows reads a RECORD; pip lists a file twice that the wheel has and that it generates (the latter counts).
func recordRows(body string, dups bool) (map[string][2]string, error) {
	rows, err := csv.NewReader(strings.NewReader(body)).ReadAll()
	if err != nil {
		return nil, err
	}
	ret := map[string][2]string{}
	for _, r := range rows {
		if len(r) != 3 {
			return nil, fmt.Errorf("row %q", r)
		}
		if _, dup := ret[r[0]]; dup && !dups {
			return nil, fmt.Errorf("%q twice", r[0])
		}
		ret[r[0]] = [2]string{r[1], r[2]}
	}
	return ret, nil
}

func TestC31(t *testing.T) {
	p := h.Start(t, "C31", "the wheel has at least three files besides its metadata, or an entry point or a file below .data")
	p.Assume("pip is the sandbox's 24.0; not compared: owners and times, directories, the arguments of rewritten interpreter lines and whether such scripts are executable, hashes of rewritten scripts and RECORD's signatures, and the text of generated scripts but for their first line")
	var tag struct{ Tag string }
	p.Run("pip", 1500, 15000, func(c *h.C) {
		if tag.Tag == "" {
			ask(map[string]interface{}{"op": "tag"}, &tag)
		}
		tmp, done := h.TempDir()
		defer done()
		root := tmp + "/dst"
		h.Must(os.Mkdir(root, 0o755))
		plat := wh.GenPlatform(c.T)
		for _, s := range []*string{&plat.Scheme.PureLib, &plat.Scheme.PlatLib, &plat.Scheme.Headers, &plat.Scheme.Scripts, &plat.Scheme.Data} {
			*s = root + path.Clean("/"+*s)
		}
		plat.ConsoleShebang, plat.GraphicalShebang = pythonExe, pythonExe
		w := wh.Gen(c.T, plat, wh.Opts{Data: true, Max: 10})
		eps := map[string]bool{}
		if rapid.Bool().Draw(c.T, "eps") {
			var s strings.Builder
			n := 0
			for _, sect := range []string{"console_scripts", "gui_scripts", "other.group"} {
				if rapid.Bool().Draw(c.T, "sect") {
					fmt.Fprintf(&s, "[%s]\n", sect)
					for k := h.Int(c.T, "neps", 0, 3); k > 0; k-- {
						n++
						name := fmt.Sprintf("%s%d", h.Pick(c.T, "ep", "ep", "Ep-", "e.p_"), n)
						fmt.Fprintf(&s, "%s %s %s\n", name, "=", h.Pick(c.T, "ref", "pkg.mod:main", "pkg:a.b", "pkg:main [extra]"))
						if sect != "other.group" {
							eps[path.Join(plat.Scheme.Scripts, name)] = true
						}
					}
				}
			}
			w.Members = append(w.Members, wh.Member{Name: w.DistInfo() + "/entry_points.txt", Body: s.String(), MTime: wh.GenTime(c.T), Attrs: 0o100644 << 16, Creator: 3 << 8})
		}
		stale := map[string]bool{}    // pip's RECORD keeps the row for what the wheel had
		if h.OneIn(c.T, "stale", 4) { // files that an installer replaces
			for _, n := range []string{"INSTALLER", "REQUESTED"} {
				if rapid.Bool().Draw(c.T, n) {
					stale[n] = true
					w.Members = append(w.Members, wh.Member{Name: w.DistInfo() + "/" + n, Body: "from the wheel", MTime: wh.GenTime(c.T), Attrs: 0o100644 << 16, Creator: 3 << 8})
				}
			}
		}
		file := tmp + "/" + w.Filename()
		h.Must(os.WriteFile(file, w.Zip(), 0o644))
		url, urlJSON := pipURL(c.T)
		requested := rapid.Bool().Draw(c.T, "requested")
		var want struct {
			Err   string
			Exe   string
			NoPyc []string
			Files map[string]struct {
				Mode int64
				Body []byte
			}
		}
		ask(map[string]interface{}{"op": "pip", "name": w.Dist, "wheel": file, "root": root, "url": urlJSON, "requested": requested,
			"scheme": map[string]string{"purelib": plat.Scheme.PureLib, "platlib": plat.Scheme.PlatLib, "headers": plat.Scheme.Headers, "scripts": plat.Scheme.Scripts, "data": plat.Scheme.Data}}, &want)
		if want.Err != "" {
			h.Infra("pip: %s with %v", want.Err, w)
		}
		plat.ConsoleShebang, plat.GraphicalShebang = want.Exe, want.Exe
		hooks := []bdist.PostInstallHook{entry_points.CreateScripts(plat), recording_installs.Record("sha256", "pip", url)}
		if requested {
			hooks = append([]bdist.PostInstallHook{pep376.RecordRequested("")}, hooks...)
		}
		got := installFile(c, file, plat, &stub{}, time.Time{}, time.Time{}, bdist.PostInstallHooks(hooks...))
		desc := fmt.Sprintf("%v entry points %v, URL %v", w, wh.Keys(eps), urlJSON)
		desc = strings.ReplaceAll(desc, tmp, "/T")
		if got.err != nil {
			c.Fatalf("%s: %v", desc, got.err)
		}
		recordFile := "/" + path.Join(w.Root(plat), w.DistInfo(), "RECORD")
		isSig := func(n string) bool { return n == recordFile+".jws" || n == recordFile+".p7s" } // pip installs them like any file
		have, noPyc := map[string]bool{}, map[string]bool{}
		for _, n := range want.NoPyc {
			noPyc[n] = true
		}
		for _, n := range wh.Keys(got.files) {
			e := got.files[n]
			if e.Type != tar.TypeReg {
				if e.Type != tar.TypeDir {
					c.Fatalf("%s: %q has type %c", desc, n, e.Type)
				}
				continue
			}
			n = "/" + strings.ReplaceAll(n, ".cpython-39.pyc", "."+tag.Tag+".pyc")
			if noPyc[n] {
				continue // not Python: the stand-in compiler takes it all the same
			}
			have[n] = true
			w, ok := want.Files[n]
			if !ok {
				c.Fatalf("%s: %q is not there with pip", desc, n)
			}
			if strings.HasSuffix(n, ".pyc") && strings.Contains(n, "/__pycache__/") {
				continue
			}
			pb, gb := string(w.Body), e.Body
			rewritten := pb != gb && strings.HasPrefix(gb, "#!"+want.Exe) && strings.HasPrefix(pb, "#!"+want.Exe)
			switch {
			case eps[n]:
				pf, _, _ := strings.Cut(pb, "\n")
				gf, _, _ := strings.Cut(gb, "\n")
				if pf != gf || gf != "#!"+want.Exe {
					c.Fatalf("%s: %q starts with %q, pip's with %q", desc, n, gf, pf)
				}
			case n == recordFile:
				gr, err := recordRows(gb, false)
				if err != nil {
					c.Fatalf("%s: RECORD: %v", desc, err)
				}
				pr, err := recordRows(pb, true)
				h.Must(err)
				for k, v := range gr {
					if len(k) > len(".cpython-39.pyc") && strings.HasSuffix(k, ".cpython-39.pyc") {
						delete(gr, k)
						gr[strings.ReplaceAll(k, ".cpython-39.pyc", "."+tag.Tag+".pyc")] = v
					}
				}
				for _, k := range wh.Keys(gr) {
					v := gr[k]
					f := path.Join(path.Dir(path.Dir(n)), k)
					if path.IsAbs(k) {
						f = path.Clean(k)
					}
					if noPyc[f] {
						continue
					}
					pv, ok := pr[k]
					if !ok {
						c.Fatalf("%s: RECORD has %q, pip's has not", desc, k)
					}
					fb := string(want.Files[f].Body)
					if v != pv && strings.HasPrefix(pv[0]+"sha256=", "sha256=") && !eps[f] && !strings.HasPrefix(fb, "#!"+want.Exe) && !stale[path.Base(k)] && !isSig(path.Join(path.Dir(path.Dir(recordFile)), k)) {
						c.Fatalf("%s: RECORD has %q for %q, pip's has %q", desc, v, k, pv)
					}
				}
				for _, k := range wh.Keys(pr) {
					if _, ok := gr[k]; !ok && !isSig(path.Join(path.Dir(path.Dir(recordFile)), k)) {
						c.Fatalf("%s: RECORD has no %q, pip's has", desc, k)
					}
				}
			case rewritten:
				// pip drops what else is on the line, and ends it
				_, pt, _ := strings.Cut(pb, "\n")
				_, gt, _ := strings.Cut(gb, "\n")
				if pt != gt {
					c.Fatalf("%s: %q goes on as %q, pip's as %q", desc, n, gt, pt)
				}
			case pb != gb:
				c.Fatalf("%s: %q is %q, pip's is %q", desc, n, gb, pb)
			}
			if e.Mode != w.Mode && !strings.HasPrefix(pb, "#!"+want.Exe) {
				c.Fatalf("%s: %q has mode %o, pip's has %o", desc, n, e.Mode, w.Mode)
			}
		}
		for _, n := range wh.Keys(want.Files) {
			if !have[n] && !isSig(n) {
				c.Fatalf("%s: %q is only there with pip", desc, strings.ReplaceAll(n, tmp, "/T"))
			}
		}
		c.LabelIf(len(eps) > 0, "entry points")
		c.LabelIf(url != nil, "URL")
		if len(w.Members) >= 5 || len(eps) > 0 {
			c.Nontrivial(desc)
		}
	})
}
