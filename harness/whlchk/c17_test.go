package whlchk

import (
	"context"
	"fmt"
	"path"
	"strings"
	"testing"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"pgregory.net/rapid"

	"verif.local/harness/h"
	"verif.local/harness/wh"
)

// inScheme says whether a wheel may install to that path: strictly below one of the directories
// that the given kinds of data go to.
func inScheme(plat python.Platform, n string, kinds ...string) bool {
	for _, k := range kinds {
		d := wh.Scheme(plat, k)
		if d == "" || strings.HasPrefix(n, d+"/") {
			return true
		}
	}
	return false
}

func isAncestor(plat python.Platform, n string) bool {
	for _, k := range []string{"purelib", "platlib", "headers", "scripts", "data"} {
		if d := wh.Scheme(plat, k); d == n || strings.HasPrefix(d, n+"/") {
			return true
		}
	}
	return false
}

func genEvilName(t *rapid.T, w *wh.Wheel) string {
	var parts []string
	switch h.Weighted(t, "base", 3, 3, 1) {
	case 1:
		parts = append(parts, w.DataDir(), h.Pick(t, "kind", "purelib", "platlib", "headers", "scripts", "scripts"))
	case 2:
		parts = append(parts, w.DistInfo())
	}
	h.Repeat(t, "comps", 1, 6, func(t *rapid.T) {
		parts = append(parts, h.Pick(t, "comp", "..", "..", "..", ".", "", "a", "b.py", "etc", "usr", "...", "..a", "..\\x", w.DataDir(), "scripts", "site-packages", "bin"))
	})
	parts = append(parts, h.Pick(t, "last", "evil", "evil.py", "evil.pth", "passwd", "..", "evil/"))
	n := strings.Join(parts, "/")
	if h.OneIn(t, "abs", 5) {
		n = h.Pick(t, "root", "/", "//", "/../", "/..//") + n
	}
	return n
}

func TestC17(t *testing.T) {
	p := h.Start(t, "C17", "a member's name has .. components or is absolute, or a script's name is")
	p.Assume("the compiler and hooks are stand-ins that record the paths they are given; nothing is written outside of the process")
	p.Run("members", 4000, 80000, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		plat.Scheme.Data = h.Pick(c.T, "data", "/opt/data", "/usr/share/data")
		w := wh.Gen(c.T, plat, wh.Opts{Max: 2})
		evil := false
		var names []string
		h.Repeat(c.T, "evil", 1, 3, func(t *rapid.T) {
			n := genEvilName(t, w)
			evil = evil || strings.Contains("/"+n+"/", "/../") || n[0] == '/'
			names = append(names, n)
			m := wh.Member{Name: n, MTime: time.Unix(1e9, 0)}
			if !m.IsDir() {
				m.Body = h.Pick(t, "body", "#!python\nevil", "x = 1\n", "/etc/passwd")
			}
			m.Attrs = h.Pick(t, "attrs", uint32(0o100755), 0o100644, 0, 0o120777, 0o040755) << 16
			m.Creator = 3 << 8
			w.Members = append(w.Members, m)
		})
		if rapid.Bool().Draw(c.T, "cleanrows") { // RECORD in clean spelling
			var rows []string
			for _, r := range w.GoodRows() {
				n, rest, _ := strings.Cut(r, ",")
				if n[0] != '"' {
					n = path.Clean(n)
				}
				rows = append(rows, n+","+rest)
			}
			w.RecordRows = rows
		}
		if evil {
			c.Nontrivial(fmt.Sprintf("%q on %+v", names, plat.Scheme))
		}
		s := &stub{}
		var hookSaw []string
		got := install(c, w.Zip(), w.Filename(), plat, s, time.Time{}, time.Time{}, bdist.PostInstallHooks(
			func(_ context.Context, _ time.Time, vfs map[string]fsutil.FileReference, _ string) error {
				for k, f := range vfs {
					hookSaw = append(hookSaw, k, f.FullName())
				}
				return nil
			},
			entry_points.CreateScripts(plat), recording_installs.Record("sha256", "x", nil)))
		c.LabelIf(got.err != nil, "members:refused")
		c.LabelIf(got.err == nil, "members:installed")
		all := []string{"purelib", "platlib", "headers", "scripts", "data"}
		for n := range s.srcs {
			if !inScheme(plat, path.Clean(n), all...) {
				c.Fatalf("the compiler is told to write to %q; members %q", n, names)
			}
		}
		for _, n := range hookSaw {
			if !inScheme(plat, path.Clean(n), all...) && !isAncestor(plat, path.Clean(n)) {
				c.Fatalf("hooks are given %q; members %q", n, names)
			}
		}
		for n, e := range got.files {
			switch {
			case e.Type == '5' && isAncestor(plat, n):
			case e.Type != '0' && e.Type != '5':
				c.Fatalf("the layer has %q as %s; members %q", n, show(e), names)
			case !inScheme(plat, n, all...):
				c.Fatalf("the layer has %q, which is outside of %+v; members %q", n, plat.Scheme, names)
			}
		}
		if got.err != nil {
			return
		}
		for _, m := range w.Members {
			if strings.HasPrefix(path.Clean(m.Name), "..") && (path.Clean(m.Name) == ".." || path.Clean(m.Name)[2] == '/') {
				c.Fatalf("the member %q was accepted", m.Name)
			}
		}
	})
	p.Run("scripts", 1500, 20000, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		w := wh.Gen(c.T, plat, wh.Opts{Max: 1})
		var parts []string
		h.Repeat(c.T, "comps", 1, 5, func(t *rapid.T) {
			parts = append(parts, h.Pick(t, "comp", "..", "..", ".", "", "a", "etc", "bin", "lib", "passwd", "..x"))
		})
		key := strings.Join(parts, "/")
		if h.OneIn(c.T, "abs", 4) {
			key = "/" + key
		}
		key = strings.TrimSpace(key)
		if key == "" {
			key = ".."
		}
		dir := wh.Scheme(plat, "scripts")
		text := "[" + h.Pick(c.T, "sec", "console_scripts", "gui_scripts") + "]\n" + key + " = vmod:main\n"
		withEntryPoints(c, w, text)
		base := install(c, w.Zip(), w.Filename(), plat, &stub{}, time.Time{}, time.Time{}, nil)
		got := install(c, w.Zip(), w.Filename(), plat, &stub{}, time.Time{}, time.Time{}, entry_points.CreateScripts(plat))
		if base.err != nil {
			c.Fatalf("installing failed: %v", base.err)
		}
		if strings.Contains("/"+key+"/", "/../") || key[0] == '/' {
			c.Nontrivial(key + " in " + dir)
		}
		c.LabelIf(got.err != nil, "scripts:refused")
		c.LabelIf(got.err == nil, "scripts:installed")
		for n, e := range got.files {
			if b, ok := base.files[n]; ok {
				if b.Type != e.Type || b.Body != e.Body {
					c.Fatalf("the entry point %q replaced %q", key, n)
				}
				continue
			}
			if e.Type == '5' && isAncestor(plat, n) {
				continue
			}
			if !strings.HasPrefix(n, dir+"/") {
				c.Fatalf("the entry point %q became %q, which is outside of %q", key, n, dir)
			}
		}
	})
}
