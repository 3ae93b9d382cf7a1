package whlchk

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"verif.local/harness/h"
	"verif.local/harness/wh"
)

// realInstall installs with an external compiler, with a temporary directory of its own.
func realInstall(c *h.C, bs []byte, name string, plat python.Platform, umask int, min, max time.Time, env map[string]string, cmdline ...string) installed {
	dir, done := h.TempDir()
	defer done()
	tmp := filepath.Join(dir, h.Pick(c.T, "tmpname", "tmp", "a b", "t.py", "é"))
	h.Must(os.Mkdir(tmp, 0o700))
	old := os.Getenv("TMPDIR")
	h.Must(os.Setenv("TMPDIR", tmp))
	defer os.Setenv("TMPDIR", old)
	for k, v := range env {
		h.Must(os.Setenv(k, v))
		defer os.Unsetenv(k)
	}
	defer syscall.Umask(syscall.Umask(umask))
	cc, err := python.ExternalCompiler(cmdline...)
	if err != nil {
		return installed{err: err}
	}
	plat.PyCompile = cc
	file := filepath.Join(dir, name)
	h.Must(os.WriteFile(file, bs, 0o644))
	got := installFile(c, file, plat, nil, min, max, nil)
	des, err := os.ReadDir(tmp)
	h.Must(err)
	if len(des) > 0 {
		c.Fatalf("the temporary file %q is left over (the installation gave %v)", des[0].Name(), got.err)
	}
	return got
}

const fakeCompiler = `
import json, os, sys
out, args = sys.argv[1], sys.argv[2:]
d = args[-1]
files = {}
for root, dirs, names in os.walk(d):
    for n in names:
        p = os.path.join(root, n)
        with open(p, "rb") as f:
            files[os.path.relpath(p, d)] = [f.read().decode("latin-1"), int(os.stat(p).st_mtime)]
with open(out, "w") as f:
    json.dump({"files": files, "env": {k: os.environ.get(k, "") for k in ("SOURCE_DATE_EPOCH", "PYTHONHASHSEED", "PYTHONPATH")}, "dir": d}, f)
for n in files:
    b, e = os.path.split(os.path.join(d, n))
    os.makedirs(os.path.join(b, "__pycache__"), exist_ok=True)
    with open(os.path.join(b, "__pycache__", e[:-3] + ".fake.pyc"), "w") as f:
        f.write("fake " + n)
    with open(os.path.join(b, e[:-3] + ".junk"), "w") as f:
        f.write("junk")
    os.makedirs(os.path.join(b, "dir.pyc"), exist_ok=True)
    with open(os.path.join(d, n), "w") as f:
        f.write("changed")
`

func TestC18(t *testing.T) {
	p := h.Start(t, "C18", "at least two source files are to be compiled (or the compiler is to fail)")
	var tag struct{ Tag string }
	ask(map[string]interface{}{"op": "tag"}, &tag)
	genWheel := func(c *h.C, plat python.Platform) *wh.Wheel {
		w := wh.Gen(c.T, plat, wh.Opts{Data: true, Dirs: true, Max: 6})
		n := 0
		h.Repeat(c.T, "pys", 0, 4, func(t *rapid.T) {
			n++
			var sb strings.Builder
			h.Repeat(t, "stmts", 0, 6, func(t *rapid.T) {
				sb.WriteString(h.Pick(t, "stmt", "x = 1\n", "def f(a, *, b=2):\n    return a + b\n", "class C:\n    '''doc'''\n    y: int = 3\n", "z = {1, 2, 3} & {'a', 'b', 'c'}\n", "if x in {'a', 'b', 'c', 'd'}:\n    pass\n", "# comment\n", "g = lambda q: [i for i in q]\n", "s = 'é'\n", "import os\n", "t = (1.5, None, True, ..., b'x')\n"))
			})
			name := fmt.Sprintf("%sm%d.py", h.Pick(t, "dir", "", "vpkg/", "vpkg/deep/er/", w.DataDir()+"/scripts/", w.DataDir()+"/data/share/", w.DataDir()+"/platlib/q/", "v-b/"), n)
			w.Members = append(w.Members, wh.Member{Name: name, Body: sb.String(), MTime: wh.GenTime(t), Attrs: 0o100644 << 16, Creator: 3 << 8})
		})
		return w
	}
	p.Run("compileall", 60, 900, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		w := genWheel(c, plat)
		for i := range w.Members { // the generic generator's scripts need not be Python
			if m := &w.Members[i]; strings.HasSuffix(m.Name, ".py") && strings.HasPrefix(m.Name, w.DataDir()+"/scripts/") && strings.ContainsAny(m.Body, "\x7f\x00\ufeff") {
				m.Body = "x = 1\n"
			}
		}
		bs := w.Zip()
		times, _ := wh.ZipTimes(bs)
		var min, max time.Time
		if h.OneIn(c.T, "min", 3) {
			min = wh.GenTime(c.T)
		}
		switch h.Int(c.T, "max", 0, 2) {
		case 0:
			max = wh.GenTime(c.T)
		case 1:
			max = time.Unix(4200000000, 0) // later than now
		}
		model := w.Install(plat, times, min)
		srcs := map[string]*wh.File{}
		ok := true
		for n, f := range model {
			if !f.Dir && strings.HasSuffix(n, ".py") {
				srcs[n] = f
				var r struct{ OK bool }
				ask(map[string]interface{}{"op": "compiles", "src": f.Body}, &r)
				ok = ok && r.OK
			}
		}
		if len(srcs) >= 2 {
			c.Nontrivial(w.String())
		}
		got := realInstall(c, bs, w.Filename(), plat, 0o022, min, max, nil, pythonExe, "-m", "compileall", "-q")
		if got.err != nil {
			if ok {
				c.Fatalf("installing failed: %v; %s", got.err, w)
			}
			c.Label("compileall: invalid source")
			return
		}
		if !ok {
			c.Fatalf("a source that cannot be compiled goes unreported; %s", w)
		}
		tmp, done := h.TempDir()
		defer done()
		for n, f := range srcs {
			pyc := path.Join(path.Dir(n), "__pycache__", strings.TrimSuffix(path.Base(n), ".py")+"."+tag.Tag+".pyc")
			e, ok := got.files[pyc]
			if !ok {
				c.Fatalf("%q is not compiled to %q; %s", n, pyc, w)
			}
			if e.Mode != 0o644 || e.Type != '0' || !max.IsZero() && e.MTime.After(max) || e.UID != plat.UID || e.Uname != plat.UName {
				c.Fatalf("%q is %s", pyc, show(e))
			}
			if e.MTime.Before(got.files[n].MTime) {
				c.Fatalf("%q is older than its source: %s", pyc, show(e))
			}
			h.Must(os.WriteFile(tmp+"/src.py", []byte(f.Body), 0o644))
			h.Must(os.WriteFile(tmp+"/out.pyc", []byte(e.Body), 0o644))
			var r struct{ Err string }
			ask(map[string]interface{}{"op": "pyc", "pyc": tmp + "/out.pyc", "src": tmp + "/src.py", "name": "/" + n, "mtime": got.files[n].MTime.Unix()}, &r)
			if r.Err != "" {
				c.Fatalf("%q has the wrong %s for its source %q", pyc, r.Err, f.Body)
			}
			delete(got.files, pyc)
		}
		for n := range got.files {
			if strings.HasSuffix(n, ".pyc") && model[n] == nil {
				c.Fatalf("there is %q without a source", n)
			}
		}
		again := realInstall(c, bs, w.Filename(), plat, h.Pick(c.T, "umask", 0o077, 0o002, 0), min, max, map[string]string{"PYTHONHASHSEED": "77"}, pythonExe, "-m", "compileall", "-q")
		if again.err != nil || !bytes.Equal(got.raw, again.raw) {
			a, _ := parseFiles(again.raw)
			b, _ := parseFiles(got.raw)
			c.Fatalf("with another umask and temporary directory, the layer differs: %v %s; %s", again.err, diffFiles(b, a), w)
		}
	})
	p.Run("command", 80, 900, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		w := genWheel(c, plat)
		bs := w.Zip()
		times, last := wh.ZipTimes(bs)
		dir, done := h.TempDir()
		defer done()
		h.Must(os.WriteFile(dir+"/fake.py", []byte(fakeCompiler), 0o644))
		var max time.Time
		if rapid.Bool().Draw(c.T, "max") {
			max = wh.GenTime(c.T)
		}
		got := realInstall(c, bs, w.Filename(), plat, 0o022, time.Time{}, max, map[string]string{"PYTHONPATH": "/inherited", "SOURCE_DATE_EPOCH": h.Pick(c.T, "outer", "77", "", "x"), "PYTHONHASHSEED": h.Pick(c.T, "seed", "9", "random", "")}, pythonExe, "-I", "-S", dir+"/fake.py", dir+"/out.json")
		if got.err != nil {
			c.Fatalf("installing failed: %v; %s", got.err, w)
		}
		out, err := os.ReadFile(dir + "/out.json")
		h.Must(err)
		var r struct {
			Files map[string][]interface{}
			Env   map[string]string
			Dir   string
		}
		h.Must(json.Unmarshal(out, &r))
		model := w.Install(plat, times, time.Time{})
		n := 0
		for _, name := range wh.Keys(model) {
			f := model[name]
			if f.Dir || !strings.HasSuffix(name, ".py") {
				continue
			}
			n++
			var latin strings.Builder
			for _, b := range []byte(f.Body) {
				latin.WriteRune(rune(b))
			}
			g := r.Files[name]
			if len(g) != 2 || g[0] != latin.String() || int64(g[1].(float64)) != f.MTime.Unix() {
				c.Fatalf("the compiler finds %q as %q, want %q %d", name, g, f.Body, f.MTime.Unix())
			}
			delete(r.Files, name)
			model[path.Join(path.Dir(name), "__pycache__", strings.TrimSuffix(path.Base(name), ".py")+".fake.pyc")] = &wh.File{Mode: 0o644, Body: "fake " + name, MTime: time.Unix(8e9, 0)}
		}
		if len(r.Files) > 0 {
			c.Fatalf("the compiler finds %q, which are not sources of the wheel", r.Files)
		}
		if n >= 2 {
			c.Nontrivial(w.String())
		}
		var epoch int64
		fmt.Sscan(r.Env["SOURCE_DATE_EPOCH"], &epoch)
		if max.IsZero() {
			if epoch < last.Unix() || epoch > last.Unix()+2 {
				c.Fatalf("the compiler is given SOURCE_DATE_EPOCH=%q, the wheel's last time is %d", r.Env["SOURCE_DATE_EPOCH"], last.Unix())
			}
			max = time.Unix(epoch, 0)
		} else if epoch != max.Unix() {
			c.Fatalf("the compiler is given SOURCE_DATE_EPOCH=%q, want %d", r.Env["SOURCE_DATE_EPOCH"], max.Unix())
		}
		if s := r.Env["PYTHONHASHSEED"]; s == "9" || s == "random" || s == "" {
			c.Fatalf("the compiler runs with PYTHONHASHSEED=%q, so what it makes may differ from run to run", r.Env["PYTHONHASHSEED"])
		}
		paths := strings.Split(r.Env["PYTHONPATH"], ":")
		for _, want := range []string{filepath.Join(r.Dir, wh.Scheme(plat, "purelib")), filepath.Join(r.Dir, wh.Scheme(plat, "platlib")), "/inherited"} {
			found := false
			for _, p := range paths {
				found = found || filepath.Clean(p) == want
			}
			if !found {
				c.Fatalf("the compiler is given PYTHONPATH=%q, want %q in it", paths, want)
			}
		}
		if d := diffFiles(expect(model, plat, max), got.files); d != "" {
			c.Fatalf("%s\nfor %s", d, w)
		}
	})
	p.Run("failure", 40, 300, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		w := genWheel(c, plat)
		var cmd []string
		switch h.Int(c.T, "kind", 0, 4) {
		case 0:
			cmd = []string{"/bin/sh", "-c", fmt.Sprintf("exit %d", h.Pick(c.T, "rc", 1, 2, 77, 255))}
		case 1:
			cmd = []string{"/bin/sh", "-c", "kill -9 $$"}
		case 2:
			cmd = []string{h.Pick(c.T, "cmd", "/nonexistent/python", "no-such-command-xyz", "/etc/passwd", "/tmp")}
		case 3:
			cmd = nil
		case 4:
			cmd = []string{pythonExe, "-m", "compileall", "-q"}
			w.Members = append(w.Members, wh.Member{Name: "broken.py", Body: h.Pick(c.T, "broken", "def f(:\n", "print 'x'\n", "\x00", "x = (\n", "\tx\n y\n"), MTime: time.Unix(1e9, 0)})
		}
		c.Nontrivial(fmt.Sprint(cmd, w))
		got := realInstall(c, w.Zip(), w.Filename(), plat, 0o022, time.Time{}, time.Time{}, nil, cmd...)
		if got.err == nil {
			c.Fatalf("the failure of %q goes unreported; %s", cmd, w)
		}
	})
	// the compiler on its own: sources that cannot be read, and cancellation
	p.Run("sources", 150, 2000, func(c *h.C) {
		dir, done := h.TempDir()
		defer done()
		tmp := filepath.Join(dir, "tmp")
		h.Must(os.Mkdir(tmp, 0o700))
		old := os.Getenv("TMPDIR")
		h.Must(os.Setenv("TMPDIR", tmp))
		defer os.Setenv("TMPDIR", old)
		cc, err := python.ExternalCompiler("/bin/sh", "-c", `cd "$4" && find . -type f -name '*.py' -exec sh -c 'cp "$1" "$1c"' sh {} \;`)
		h.Must(err)
		var refs []fsutil.FileReference
		var srcs []*faultySource
		want := map[string]string{}
		for i := h.Int(c.T, "n", 1, 4); i > 0; i-- {
			s := &faultySource{name: fmt.Sprintf("%sf%d.py", h.Pick(c.T, "dir", "", "usr/lib/", "usr/lib/deep/", "opt/a b/"), i), body: rapid.StringMatching("[a-z#\n]{0,20}").Draw(c.T, "body"), failRead: -1}
			if h.OneIn(c.T, "big", 4) {
				s.body += strings.Repeat("#", 40000)
			}
			srcs = append(srcs, s)
			refs = append(refs, s)
			want[s.name+"c"] = s.body
		}
		kind := h.Pick(c.T, "kind", "good", "open", "read", "close", "cancelled")
		ctx, cancel := context.WithCancel(quiet())
		defer cancel()
		s := srcs[h.Int(c.T, "which", 0, len(srcs)-1)]
		switch kind {
		case "open":
			s.failOpen = true
		case "read":
			s.failRead = h.Int(c.T, "at", 0, len(s.body))
		case "close":
			s.failClose = true
		case "cancelled":
			cancel()
		}
		desc := fmt.Sprintf("%s of %q of %d sources", kind, s.name, len(srcs))
		got, err := cc(ctx, time.Unix(1.5e9, 0), nil, refs)
		if (err == nil) != (kind == "good") {
			c.Fatalf("%s: compiling gives %d files, %v", desc, len(got), err)
		}
		for _, s := range srcs {
			if s.opened != s.closed {
				c.Fatalf("%s: %q was opened %d times and closed %d times", desc, s.name, s.opened, s.closed)
			}
		}
		des, err := os.ReadDir(tmp)
		h.Must(err)
		if len(des) > 0 {
			c.Fatalf("%s: left behind: %q", desc, des[0].Name())
		}
		if kind == "good" {
			for _, f := range got {
				r, err := f.Open()
				h.Must(err)
				bs, err := io.ReadAll(r)
				h.Must(err)
				h.Must(r.Close())
				if w, ok := want[f.FullName()]; !ok || w != string(bs) || f.Size() != int64(len(w)) || !f.Mode().IsRegular() {
					c.Fatalf("%s: the compiled %q is %d bytes %q", desc, f.FullName(), f.Size(), bs)
				}
				delete(want, f.FullName())
			}
			if len(want) > 0 {
				c.Fatalf("%s: %q were not compiled", desc, want)
			}
		}
		c.Label("sources: " + kind)
		c.Nontrivial(desc + s.body)
	})
}

// faultySource is a source file of which opening, reading or closing may fail.
type faultySource struct {
	name, body          string
	failOpen, failClose bool
	failRead            int
	opened, closed      int
}

var errInjected = errors.New("injected error")

func (s *faultySource) FullName() string   { return s.name }
func (s *faultySource) Name() string       { return path.Base(s.name) }
func (s *faultySource) Size() int64        { return int64(len(s.body)) }
func (s *faultySource) Mode() fs.FileMode  { return 0o644 }
func (s *faultySource) ModTime() time.Time { return time.Unix(1e9, 0) }
func (s *faultySource) IsDir() bool        { return false }
func (s *faultySource) Sys() interface{}   { return nil }
func (s *faultySource) Open() (io.ReadCloser, error) {
	if s.failOpen {
		return nil, errInjected
	}
	s.opened++
	return &faultySourceReader{s: s, r: strings.NewReader(s.body)}, nil
}

type faultySourceReader struct {
	s *faultySource
	r *strings.Reader
	n int

	closed bool
}

func (r *faultySourceReader) Read(p []byte) (int, error) {
	if r.s.failRead >= 0 {
		if r.n >= r.s.failRead {
			return 0, errInjected
		}
		if len(p) > r.s.failRead-r.n {
			p = p[:r.s.failRead-r.n]
		}
	}
	n, err := r.r.Read(p)
	r.n += n
	return n, err
}

func (r *faultySourceReader) Close() error {
	if !r.closed {
		r.s.closed++
	}
	r.closed = true
	if r.s.failClose {
		return errInjected
	}
	return nil
}
