package whlchk

import (
	"context"
	"fmt"
	"os"
	"path"
	"strings"
	"testing"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"pgregory.net/rapid"

	"verif.local/harness/h"
	"verif.local/harness/wh"
)

type script struct {
	key, module, attrs, shebang string
}

// genEntryPoints makes an entry_points.txt; the scripts are those it stands for.
func genEntryPoints(t *rapid.T, console, gui string, oneSection bool) (string, map[string]script) {
	var sb strings.Builder
	scripts := map[string]script{}
	noise := func() {
		switch h.Weighted(t, "noise", 6, 1, 1, 1) {
		case 1:
			sb.WriteString("\n")
		case 2:
			sb.WriteString("# comment = x:y\n")
		case 3:
			sb.WriteString("; comment = x:y\n")
		}
	}
	sections := []string{"console_scripts", "gui_scripts", "pytest11", "other.group", "Console_Scripts"}
	for i := len(sections) - 1; i > 0; i-- {
		j := h.Int(t, "perm", 0, i)
		sections[i], sections[j] = sections[j], sections[i]
	}
	n := 0
	for _, sec := range sections {
		if h.OneIn(t, "skip", 3) {
			continue
		}
		noise()
		sb.WriteString("[" + sec + "]\n")
		h.Repeat(t, "entries", 0, 4, func(t *rapid.T) {
			n++
			key := h.Pick(t, "key", "foo", "Foo", "FOO", "foo-bar", "foo.py", "foo_bar", "a:b", "2to3", "x y", "é", "f", "foo.exe", "sub/foo")
			if oneSection {
				key = fmt.Sprintf("%s%d", key, n)
			}
			if _, dup := scripts[key]; dup || scripts["\x00"+sec+key].key != "" {
				return
			}
			scripts["\x00"+sec+key] = script{key: "x"}
			mod := h.Pick(t, "mod", "vmod", "vmod.sub", "vpkg.a.b_c", "_v1", "vmöd.größe", "模块.a")
			attrs := h.Pick(t, "attrs", "main", "Cls.run", "a.b.c", "_f", "Main2", "größe", "Ж.run1")
			val := mod + ":" + attrs + h.Pick(t, "extras", "", "", " [x]", "[x,y]", " [a, b]", "  [x]", "\t[x]", " []")
			eq := h.Pick(t, "eq", " = ", "=", " =", "= ", "  =\t")
			sb.WriteString(key + eq + val + h.Pick(t, "trail", "", "", " ", "\t") + h.Pick(t, "eol", "\n", "\n", "\r\n"))
			noise()
			switch sec {
			case "console_scripts":
				scripts[key] = script{key, mod, attrs, console}
			case "gui_scripts":
				scripts[key] = script{key, mod, attrs, gui}
			}
		})
		if h.OneIn(t, "weird", 4) && sec != "console_scripts" && sec != "gui_scripts" {
			sb.WriteString("plugin = not a function\nplugin2 = vmod\n")
		}
	}
	for k := range scripts {
		if k[0] == 0 {
			delete(scripts, k)
		}
	}
	return sb.String(), scripts
}

func withEntryPoints(c *h.C, w *wh.Wheel, text string) {
	w.Members = append(w.Members, wh.Member{Name: w.DistInfo() + "/entry_points.txt", Body: text, MTime: wh.GenTime(c.T), Deflate: true})
}

func TestC16(t *testing.T) {
	p := h.Start(t, "C16", "at least two scripts are to be generated")
	p.Run("scripts", 1500, 20000, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		console, gui := plat.ConsoleShebang, plat.GraphicalShebang
		if console == "" {
			console = gui
		}
		if gui == "" {
			gui = console
		}
		w := wh.Gen(c.T, plat, wh.Opts{Max: 3})
		text, scripts := genEntryPoints(c.T, console, gui, rapid.Bool().Draw(c.T, "onesection"))
		if h.OneIn(c.T, "absent", 12) {
			scripts = nil
		} else {
			withEntryPoints(c, w, text)
			if ks := wh.Keys(scripts); len(ks) > 0 && h.OneIn(c.T, "wrapper", 4) { // the wheel brings a file of that name
				k := ks[h.Int(c.T, "wrapped", 0, len(ks)-1)]
				w.Members = append(w.Members, wh.Member{Name: w.DataDir() + "/scripts/" + k, Body: h.Pick(c.T, "wrapperbody", "#!python\nold\n", "#!/bin/sh\n", ""), MTime: wh.GenTime(c.T), Attrs: 0o100644 << 16, Creator: 3 << 8})
				c.Label("scripts: the wheel has a file in the place")
			}
		}
		bs := w.Zip()
		times, _ := wh.ZipTimes(bs)
		max := time.Unix(1700000000, 0)
		got := install(c, bs, w.Filename(), plat, &stub{}, time.Time{}, max, bdist.PostInstallHooks(
			entry_points.CreateScripts(plat), recording_installs.Record("sha256", "x", nil)))
		if got.err != nil {
			c.Fatalf("installing failed: %v; entry_points.txt is %q", got.err, text)
		}
		if len(scripts) >= 2 {
			c.Nontrivial(fmt.Sprintf("%q on %q %q", text, console, gui))
		}
		di := path.Join(w.Root(plat), w.DistInfo())
		checkRecord(c, got.files[path.Join(di, "RECORD")].Body, path.Dir(di), "sha256", got.files, nil)
		model := w.Install(plat, times, time.Time{})
		addPyc(model)
		dir := wh.Scheme(plat, "scripts")
		for key, s := range scripts {
			n := path.Join(dir, key)
			body := got.files[n].Body
			model[n] = &wh.File{Mode: 0o755, Body: body, MTime: max}
			line, _, _ := strings.Cut(body, "\n")
			if line != "#!"+s.shebang {
				c.Fatalf("the script %q starts with %q, want %q; entry_points.txt is %q", n, line, "#!"+s.shebang, text)
			}
		}
		for _, n := range []string{"INSTALLER", "RECORD"} {
			delete(got.files, path.Join(di, n))
		}
		if d := diffFiles(expect(model, plat, max), got.files); d != "" {
			c.Fatalf("%s\nfor %s", d, w)
		}
		// run them
		tmp, done := h.TempDir()
		defer done()
		for _, key := range wh.Keys(scripts) {
			s := scripts[key]
			file := tmp + "/script"
			h.Must(os.WriteFile(file, []byte(got.files[path.Join(dir, key)].Body), 0o755))
			var r struct {
				Exit  string
				Calls [][]interface{}
			}
			argv0, want0 := "/usr/bin/x", "/usr/bin/x"
			argv0 += h.Pick(c.T, "suffix", "", "", ".exe", "-script.pyw")
			if h.OneIn(c.T, "keepsuffix", 5) {
				argv0 = h.Pick(c.T, "kept", "/usr/bin/x-script.py", "/usr/bin/x-script.py", "/usr/bin/xexe", "/usr/bin/x_exe", "/usr/bin/x.exe.d", "/opt/x.exe/x", "/usr/bin/x-scriptXpyw", "/usr/bin/x.pyw", "x.Exe", "/usr/bin/-script.pyw/x", "x.exe.py")
				want0 = argv0
			}
			ret := h.Pick[interface{}](c.T, "ret", nil, 0, 3, "text")
			q := map[string]interface{}{"op": "script", "path": file, "name": "__main__", "module": s.module, "attrs": s.attrs, "ret": ret, "argv": []string{argv0, "arg"}}
			ask(q, &r)
			wantExit := map[interface{}]string{nil: "exit:None", 0: "exit:0", 3: "exit:3", "text": "exit:'text'"}[ret]
			if r.Exit != wantExit || len(r.Calls) != 1 || fmt.Sprint(r.Calls[0]) != fmt.Sprint([]interface{}{0, 0, want0}) {
				c.Fatalf("running the script %q for %s:%s, whose function returns %v, as %q: %+v; the script is %q", key, s.module, s.attrs, ret, argv0, r, got.files[path.Join(dir, key)].Body)
			}
			q["name"] = "other"
			ask(q, &r)
			if r.Exit != "none" || len(r.Calls) != 0 {
				c.Fatalf("importing the script %q: %+v", key, r)
			}
		}
	})
	p.Run("refuse", 300, 3000, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		w := wh.Gen(c.T, plat, wh.Opts{Max: 1})
		val := h.Pick(c.T, "val", "vmod", "vmod:", ":main", "vmod:a:b", "vmod main", "vmod:main()", "vmod:main;import os", "vmod-x:main", "vmod:ma in", "", "vmod:main [x", "vmod::main", "os;x:main", "vmod:main\n  import os", ".vmod:main", "vmod.:main")
		text := "[" + h.Pick(c.T, "sec", "console_scripts", "gui_scripts") + "]\ngood = vmod:main\nbad = " + val + "\n"
		withEntryPoints(c, w, text)
		c.Nontrivial(text)
		got := install(c, w.Zip(), w.Filename(), plat, &stub{}, time.Time{}, time.Time{}, entry_points.CreateScripts(plat))
		if got.err == nil {
			c.Fatalf("the entry point %q was accepted and made into %q", val, got.files[path.Join(wh.Scheme(plat, "scripts"), "bad")].Body)
		}
	})
	// entry_points.txt of an earlier hook, which perhaps cannot be opened or read
	p.Run("faults", 600, 6000, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		w := wh.Gen(c.T, plat, wh.Opts{Max: 1})
		text, scripts := genEntryPoints(c.T, "/bin/c", "/bin/g", true)
		if h.OneIn(c.T, "long", 3) {
			text += "[other]\n" + strings.Repeat("# comment\n", 2000)
		}
		odd := genOdd(c.T, path.Join(w.Root(plat), w.DistInfo(), "entry_points.txt"), text)
		c.Nontrivial(odd.String())
		got := install(c, w.Zip(), w.Filename(), plat, &stub{}, time.Time{}, time.Time{}, bdist.PostInstallHooks(
			func(_ context.Context, _ time.Time, vfs map[string]fsutil.FileReference, _ string) error {
				odd.add(vfs)
				return nil
			},
			entry_points.CreateScripts(plat)))
		if d := odd.judge(got.err); d != "" {
			c.Fatalf("%s: %s", odd, d)
		}
		if got.err == nil {
			for key := range scripts {
				if _, ok := got.files[path.Join(wh.Scheme(plat, "scripts"), key)]; !ok {
					c.Fatalf("there is no script %q for %q", key, text)
				}
			}
		}
		c.LabelIf(odd.failed, "failed")
	})
	p.Run("both", 300, 3000, func(c *h.C) { // the same script in both sections: either, but always the same
		plat := wh.GenPlatform(c.T)
		plat.ConsoleShebang, plat.GraphicalShebang = "/bin/console", "/bin/gui"
		w := wh.Gen(c.T, plat, wh.Opts{Max: 1})
		var lines []string
		for _, sec := range []string{"console_scripts", "gui_scripts"} {
			lines = append(lines, "["+sec+"]")
			for i := h.Int(c.T, "n", 1, 3); i > 0; i-- {
				lines = append(lines, fmt.Sprintf("%s = v%s:f%d", h.Pick(c.T, "dot", "", "./")+"k"+strings.Repeat("k", i), sec, i))
			}
		}
		text := strings.Join(lines, "\n")
		withEntryPoints(c, w, text)
		c.Nontrivial(text)
		bs := w.Zip()
		var first []byte
		for i := 0; i < 6; i++ {
			got := install(c, bs, w.Filename(), plat, &stub{}, time.Time{}, time.Time{}, entry_points.CreateScripts(plat))
			if got.err != nil {
				c.Label("both:refused")
				return
			}
			if i > 0 && string(first) != string(got.raw) {
				c.Fatalf("the same wheel gives different layers; entry_points.txt is %q", text)
			}
			first = got.raw
		}
	})
}
