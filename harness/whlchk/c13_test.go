package whlchk

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"strings"
	"testing"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"pgregory.net/rapid"

	"verif.local/harness/h"
	"verif.local/harness/wh"
)

func TestC13(t *testing.T) {
	p := h.Start(t, "C13", "the wheel has at least two files besides its metadata, one of them below .data")
	p.Run("install", 4000, 80000, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		w := wh.Gen(c.T, plat, wh.Opts{Data: true, Dirs: true, Pyc: true, Max: 10})
		bs := w.Zip()
		times, last := wh.ZipTimes(bs)
		var min, max time.Time
		if h.OneIn(c.T, "min", 3) {
			min = wh.GenTime(c.T)
		}
		if rapid.Bool().Draw(c.T, "max") {
			max = wh.GenTime(c.T)
		}
		s := &stub{}
		type ref struct {
			body, name string
			size       int64
			dir        bool
			mode       int64
		}
		seen := map[string]ref{}
		var clamp time.Time
		var info string
		hooks := 0
		hook := func(_ context.Context, ct time.Time, vfs map[string]fsutil.FileReference, di string) error {
			hooks++
			clamp, info = ct, di
			for k, f := range vfs {
				if k != f.FullName() {
					c.Fatalf("the hook is given %q under the key %q", f.FullName(), k)
				}
				r := ref{name: f.Name(), size: f.Size(), dir: f.IsDir(), mode: int64(f.Mode().Perm())}
				if !r.dir {
					r.body = readAll(c, f)
				}
				seen[k] = r
			}
			return nil
		}
		got := install(c, bs, w.Filename(), plat, s, min, max, hook)
		if got.err != nil {
			c.Fatalf("installing failed: %v; %s on %+v", got.err, w, plat)
		}
		if hooks != 1 || s.calls != 1 {
			c.Fatalf("the hook was called %d times, the compiler %d times", hooks, s.calls)
		}
		nd, ndata := 0, 0
		for _, m := range w.Members[2:] {
			if !m.IsDir() {
				nd++
			}
			if strings.HasPrefix(m.Name, w.DataDir()+"/") {
				ndata++
			}
		}
		if nd >= 2 && ndata >= 1 {
			c.Nontrivial(fmt.Sprintf("%s on %+v min=%v max=%v", w, plat.Scheme, min, max))
		}
		// times
		if max.IsZero() {
			if clamp.Before(last) || clamp.After(last.Add(2*time.Second)) || clamp.Nanosecond() != 0 {
				c.Fatalf("the latest time is %v, but the wheel's latest is %v", clamp, last)
			}
			max = clamp
		} else if !clamp.Equal(max) {
			c.Fatalf("the hook is given the time %v, want %v", clamp, max)
		}
		if !s.clamp.Equal(clamp) {
			c.Fatalf("the compiler is given the time %v, the hook %v", s.clamp, clamp)
		}
		if want := path.Join(w.Root(plat), w.DistInfo()); info != want {
			c.Fatalf("the hook is given the directory %q, want %q", info, want)
		}
		// the compiler's work
		model := w.Install(plat, times, min)
		for n, f := range model {
			x, ok := s.srcs[n]
			if isPy := !f.Dir && strings.HasSuffix(n, ".py"); isPy != ok {
				c.Fatalf("%q: to be compiled %v, was compiled %v", n, isPy, ok)
			}
			if ok && (x.body != f.Body || !x.mtime.Equal(f.MTime)) {
				c.Fatalf("%q is compiled as %+v, want %q %v", n, x, f.Body, f.MTime)
			}
		}
		for n := range s.srcs {
			if model[n] == nil {
				c.Fatalf("%q is compiled but not installed", n)
			}
		}
		if len(s.dups) > 0 {
			c.Fatalf("compiled twice: %q", s.dups)
		}
		for _, want := range []string{wh.Scheme(plat, "purelib"), wh.Scheme(plat, "platlib")} {
			found := false
			for _, p := range s.path {
				found = found || strings.Trim(path.Clean("/"+p), "/") == want
			}
			if !found {
				c.Fatalf("the compiler is given the path %q, want %q in it", s.path, want)
			}
		}
		addPyc(model)
		// what the hook sees
		for n, f := range model {
			g, ok := seen[n]
			if !ok {
				c.Fatalf("the hook is not given %q", n)
			}
			if f.Dir {
				continue
			}
			if g.body != f.Body || g.size != int64(len(f.Body)) || g.dir || g.name != path.Base(n) || g.mode != f.Mode {
				c.Fatalf("the hook is given %q as %+v, want %q mode=%o", n, g, f.Body, f.Mode)
			}
		}
		// the layer
		if d := diffFiles(expect(model, plat, max), got.files); d != "" {
			c.Fatalf("%s\nfor %s\non %+v min=%v max=%v", d, w, plat, min, max)
		}
	})
	testPipe(p)
	p.Run("hook", 500, 8000, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		w := wh.Gen(c.T, plat, wh.Opts{Data: true, Max: 4})
		bs := w.Zip()
		c.Nontrivial(w.String())
		boom := errors.New("boom")
		switch h.Int(c.T, "kind", 0, 3) {
		case 0: // the hook fails
			n := 0
			mk := func(e error) bdist.PostInstallHook {
				return func(context.Context, time.Time, map[string]fsutil.FileReference, string) error { n++; return e }
			}
			got := install(c, bs, w.Filename(), plat, &stub{}, time.Time{}, time.Time{}, bdist.PostInstallHooks(mk(nil), mk(boom), mk(nil)))
			if !errors.Is(got.err, boom) || n != 2 {
				c.Fatalf("a hook's failure gives %v after %d hooks", got.err, n)
			}
		case 1: // the compiler fails
			n := 0
			got := install(c, bs, w.Filename(), plat, &stub{err: boom}, time.Time{}, time.Time{}, func(context.Context, time.Time, map[string]fsutil.FileReference, string) error { n++; return nil })
			if !errors.Is(got.err, boom) || n != 0 {
				c.Fatalf("the compiler's failure gives %v and %d hooks", got.err, n)
			}
		case 2: // files that hooks add or remove, in order
			victim := path.Join(w.Root(plat), w.DistInfo(), "METADATA")
			add := path.Join(h.Pick(c.T, "where", "opt/new", "usr/share/x/y", "etc"), "added")
			base := install(c, bs, w.Filename(), plat, &stub{}, time.Time{}, time.Time{}, nil)
			if base.err != nil {
				c.Fatalf("installing failed: %v; %s", base.err, w)
			}
			mk := func(body string) fsutil.FileReference {
				return &fsutil.InMemFileReference{FileInfo: memInfo(add, body), MFullName: add, MContent: []byte(body)}
			}
			got := install(c, bs, w.Filename(), plat, &stub{}, time.Time{}, time.Time{}, bdist.PostInstallHooks(
				func(_ context.Context, _ time.Time, vfs map[string]fsutil.FileReference, _ string) error {
					vfs[add] = mk("first")
					return nil
				},
				func(_ context.Context, _ time.Time, vfs map[string]fsutil.FileReference, _ string) error {
					vfs[add] = mk(readAll(c, vfs[add]) + " second")
					delete(vfs, victim)
					return nil
				}))
			if got.err != nil {
				c.Fatalf("installing failed: %v; %s", got.err, w)
			}
			e := got.files[add]
			if e.Body != "first second" || e.UID != plat.UID || e.GID != plat.GID || e.Uname != plat.UName || e.Gname != plat.GName {
				c.Fatalf("the file that a hook added is %s", show(e))
			}
			if _, ok := got.files[victim]; ok {
				c.Fatalf("the file that a hook removed is there")
			}
			delete(base.files, victim)
			delete(got.files, add)
			for d := path.Dir(add); d != "."; d = path.Dir(d) {
				if _, ok := base.files[d]; !ok {
					if got.files[d].Type != '5' || got.files[d].Mode != 0o755 {
						c.Fatalf("%q is %s", d, show(got.files[d]))
					}
					delete(got.files, d)
				}
			}
			if d := diffFiles(base.files, got.files); d != "" {
				c.Fatalf("a hook's change changed more: %s", d)
			}
		case 3: // invalid platforms
			what := ""
			switch h.Int(c.T, "bad", 0, 2) {
			case 0:
				plat.ConsoleShebang, plat.GraphicalShebang = "", ""
				what = "no interpreter"
			case 1:
				*h.Pick(c.T, "slot", &plat.Scheme.PureLib, &plat.Scheme.PlatLib, &plat.Scheme.Headers, &plat.Scheme.Scripts, &plat.Scheme.Data) = h.Pick(c.T, "rel", "", "usr/lib", "./x", "..")
				what = "relative path"
			case 2:
				got := installFile(c, "/nonexistent/x.whl", plat, &stub{}, time.Time{}, time.Time{}, nil)
				if got.err == nil {
					c.Fatalf("a missing file was installed")
				}
				return
			}
			s := &stub{}
			if got := install(c, bs, w.Filename(), plat, s, time.Time{}, time.Time{}, nil); got.err == nil || s.calls != 0 {
				c.Fatalf("a platform with %s was accepted: %+v", what, plat)
			}
		}
	})
}

func testPipe(p *h.Prop) {
	p.Run("pipe", 100, 1000, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		w := wh.Gen(c.T, plat, wh.Opts{Data: true, Max: 4})
		if h.OneIn(c.T, "huge", 6) {
			w.Members = append(w.Members, wh.Member{Name: "vlarge.bin", Body: strings.Repeat("0123456789abcde\n", 70000), MTime: wh.GenTime(c.T)})
		}
		bs := w.Zip()
		c.Nontrivial(w.String())
		a := install(c, bs, w.Filename(), plat, &stub{}, time.Time{}, time.Time{}, nil)
		rd, wr, err := os.Pipe()
		h.Must(err)
		go func() {
			for rest := bs; len(rest) > 0; {
				n := len(rest)
				if n > 3000 {
					n = 3000
				}
				if _, err := wr.Write(rest[:n]); err != nil {
					break
				}
				rest = rest[n:]
			}
			wr.Close()
		}()
		b := installFile(c, fmt.Sprintf("/proc/self/fd/%d", rd.Fd()), plat, &stub{}, time.Time{}, time.Time{}, nil)
		rd.Close()
		if a.err != nil || b.err != nil || !bytes.Equal(a.raw, b.raw) {
			c.Fatalf("the wheel gives %v, %d bytes; through a pipe %v, %d bytes; %s", a.err, len(a.raw), b.err, len(b.raw), w)
		}
	})
}

func readAll(c *h.C, f fsutil.FileReference) string {
	rd, err := f.Open()
	if err != nil {
		c.Fatalf("open %q: %v", f.FullName(), err)
	}
	defer rd.Close()
	bs, err := io.ReadAll(rd)
	if err != nil {
		c.Fatalf("read %q: %v", f.FullName(), err)
	}
	return string(bs)
}
