package whlchk

import (
	"context"
	"encoding/csv"
	"fmt"
	"path"
	"strings"
	"testing"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"pgregory.net/rapid"

	"verif.local/harness/h"
	"verif.local/harness/wh"
)

// genScript makes the text of a script, most often one that starts with a placeholder.  (A
// placeholder that goes on as a word, such as "#!python3", is left out: the specification does not
// say what should become of it.)
func genScript(t *rapid.T) string {
	head := h.Pick(t, "head", "#!python", "#!pythonw", "#!python", "#!pythonw", "#!/usr/bin/python3", "#!/bin/sh", "#!pytho", "#! python", " #!python", "\n#!python", "\ufeff#!python", "#!Python", "#python", "!#python", "", "#", "#!", "\x7fELF")
	rest := h.Pick(t, "rest", "", "\n", "\r\n", " -E\n", "\t-sE\n", " -c 'x'", "\n\n")
	body := ""
	if rest != "" && rest[len(rest)-1] == '\n' {
		switch h.Weighted(t, "bodykind", 3, 2, 2, 1, 1) {
		case 1:
			body = "#!python\n#!pythonw\nprint('#!python')\n"
		case 2:
			body = string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"))
		case 3:
			body = strings.Repeat("x = 1  # padding\n", h.Pick(t, "n", 30, 240, 241, 2000, 4000))
		case 4:
			body = "print(1)"
		}
	}
	return head + rest + body
}

func TestC14(t *testing.T) {
	p := h.Start(t, "C14", "a script starts with the placeholder and is to be rewritten")
	p.Run("scripts", 2500, 40000, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		plat.ConsoleShebang = h.Pick(c.T, "console", "/usr/bin/python3.9", "/opt/a b/python", "/usr/bin/env python3", "/p", "", "/usr/local/bin/"+strings.Repeat("d/", 60)+"python3")
		plat.GraphicalShebang = h.Pick(c.T, "gui", "/usr/bin/pythonw3.9", "/p", "", plat.ConsoleShebang)
		if plat.ConsoleShebang == "" && plat.GraphicalShebang == "" {
			plat.ConsoleShebang = "/usr/bin/python"
		}
		var extra []wh.Member
		w := wh.Gen(c.T, plat, wh.Opts{Data: false, Max: 2})
		used := map[string]bool{}
		n := 0
		h.Repeat(c.T, "scripts", 1, 5, func(t *rapid.T) {
			n++
			dir := h.Pick(t, "dir", "scripts", "scripts", "scripts", "scripts/sub", "data/share", "purelib", "platlib", "headers", "")
			name := fmt.Sprintf("s%d%s", n, h.Pick(t, "ext", "", "", ".py", ".sh", ".pyw"))
			if dir == "" {
				name = h.Pick(t, "top", "", "scripts/", "bin/") + name
			} else {
				name = w.DataDir() + "/" + dir + "/" + name
			}
			m := wh.Member{Name: name, Body: genScript(t), MTime: wh.GenTime(t), Deflate: rapid.Bool().Draw(t, "deflate")}
			m.Attrs, m.Creator = wh.GenAttrs(t, false)
			if !used[name] {
				used[name] = true
				extra = append(extra, m)
			}
		})
		w.Members = append(w.Members, extra...)
		bs := w.Zip()
		times, _ := wh.ZipTimes(bs)
		max := time.Unix(1700000000, 0)
		type size struct {
			size int64
			mode int64
		}
		sizes := map[string]size{}
		got := install(c, bs, w.Filename(), plat, &stub{}, time.Time{}, max, bdist.PostInstallHooks(
			func(_ context.Context, _ time.Time, vfs map[string]fsutil.FileReference, _ string) error {
				for k, f := range vfs {
					sizes[k] = size{f.Size(), int64(f.Mode().Perm())}
				}
				return nil
			},
			recording_installs.Record("sha256", "test", nil)))
		if got.err != nil {
			c.Fatalf("installing failed: %v; %s on %+v", got.err, w, plat)
		}
		// RECORD has the hash from before
		root := w.Root(plat)
		rows, err := csv.NewReader(strings.NewReader(got.files[path.Join(root, w.DistInfo(), "RECORD")].Body)).ReadAll()
		if err != nil {
			c.Fatalf("RECORD: %v", err)
		}
		recs := map[string][]string{}
		for _, r := range rows {
			recs[strings.TrimPrefix(path.Clean(path.Join("/", root, r[0])), "/")] = r
		}
		model := w.Install(plat, times, time.Time{})
		rewritten := 0
		for n, f := range model {
			if f.Kind == "scripts" {
				for _, m := range extra {
					if m.Name == f.From {
						if _, ch := wh.Shebang(plat, m.Body); ch {
							rewritten++
						}
						if rec := recs[n]; rec == nil || rec[1] != wh.Hash("sha256", m.Body) || rec[2] != fmt.Sprint(len(m.Body)) {
							c.Fatalf("RECORD has %q for the script %q, which was %q", rec, n, m.Body)
						}
					}
				}
			}
			if !f.Dir && sizes[n] != (size{int64(len(f.Body)), f.Mode}) {
				c.Fatalf("%q is given to hooks as %+v, but has %d bytes and mode %o", n, sizes[n], len(f.Body), f.Mode)
			}
		}
		if rewritten > 0 {
			c.Nontrivial(fmt.Sprintf("console=%q gui=%q %s", plat.ConsoleShebang, plat.GraphicalShebang, w))
		}
		addPyc(model)
		for _, n := range []string{"INSTALLER", "RECORD"} {
			delete(got.files, path.Join(root, w.DistInfo(), n))
		}
		if d := diffFiles(expect(model, plat, max), got.files); d != "" {
			c.Fatalf("%s\nfor %s\non %+v", d, w, plat)
		}
	})
}
