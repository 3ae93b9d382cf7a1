package whlchk

import (
	"archive/tar"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/datawire/dlib/dlog"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"

	"verif.local/harness/h"
	"verif.local/harness/lm"
	"verif.local/harness/wh"
)

func TestMain(m *testing.M) {
	logrus.SetOutput(os.Stderr)
	os.Exit(m.Run())
}

func quiet() context.Context {
	l := logrus.New()
	l.SetLevel(logrus.PanicLevel)
	return dlog.WithLogger(context.Background(), dlog.WrapLogrus(l))
}

// stub is a compiler that only records what it is asked to compile.
type stub struct {
	calls int
	path  []string
	clamp time.Time
	srcs  map[string]src
	dups  []string
	err   error
}

type src struct {
	body  string
	mtime time.Time
}

func pycName(p string) string {
	return path.Join(path.Dir(p), "__pycache__", strings.TrimSuffix(path.Base(p), ".py")+".cpython-39.pyc")
}

func pycBody(body string) string { return "PYC:" + fmt.Sprint(len(body)) }

func (s *stub) compile(_ context.Context, clamp time.Time, pythonPath []string, in []fsutil.FileReference) ([]fsutil.FileReference, error) {
	s.calls++
	s.path, s.clamp = pythonPath, clamp
	s.srcs = map[string]src{}
	var ret []fsutil.FileReference
	for _, f := range in {
		if _, dup := s.srcs[f.FullName()]; dup {
			s.dups = append(s.dups, f.FullName())
		}
		rd, err := f.Open()
		if err != nil {
			return nil, err
		}
		var sb strings.Builder
		buf := make([]byte, 700)
		for {
			n, err := rd.Read(buf)
			sb.Write(buf[:n])
			if err != nil {
				break
			}
		}
		rd.Close()
		s.srcs[f.FullName()] = src{sb.String(), f.ModTime()}
		out := pycName(f.FullName())
		ret = append(ret, &fsutil.InMemFileReference{
			FileInfo:  (&tar.Header{Typeflag: tar.TypeReg, Name: out, Mode: 0o644, Size: int64(len(pycBody(sb.String()))), ModTime: time.Unix(2000000000, 0)}).FileInfo(),
			MFullName: out, MContent: []byte(pycBody(sb.String())),
		})
	}
	if s.err != nil {
		return nil, s.err
	}
	return ret, nil
}

// installed is the outcome of an installation.
type installed struct {
	raw   []byte
	layer lm.Layer
	files map[string]lm.Entry
	err   error
}

// install runs the code under test.
func install(c *h.C, bs []byte, name string, p python.Platform, s *stub, min, max time.Time, hook bdist.PostInstallHook) (ret installed) {
	dir, done := h.TempDir()
	defer done()
	file := dir + "/" + name
	h.Must(os.WriteFile(file, bs, 0o644))
	return installFile(c, file, p, s, min, max, hook)
}

func installFile(c *h.C, file string, p python.Platform, s *stub, min, max time.Time, hook bdist.PostInstallHook) (ret installed) {
	if s != nil {
		p.PyCompile = s.compile
	}
	ret.err = h.Try(func() error {
		var err error
		c.Guard("InstallWheel", time.Minute, func() {
			layer, e := bdist.InstallWheel(quiet(), p, min, max, file, hook)
			if err = e; err == nil {
				ret.raw, err = lm.Bytes(layer)
			}
		})
		return err
	})
	if open := h.OpenBelow(path.Dir(file)); len(open) > 0 {
		c.Fatalf("still open after installing (%v): %q", ret.err, open)
	}
	if ret.err != nil {
		if strings.HasPrefix(ret.err.Error(), "PANIC") {
			c.Fatalf("InstallWheel crashed: %v", ret.err)
		}
		return ret
	}
	l, err := lm.Parse(ret.raw)
	if err != nil {
		c.Fatalf("the layer is not a tar file: %v", err)
	}
	ret.layer = l
	ret.files = map[string]lm.Entry{}
	for _, e := range l {
		n := strings.TrimSuffix(e.Name, "/")
		if n != path.Clean(n) || n == "" || n[0] == '/' || n == "." || n == ".." || strings.HasPrefix(n, "../") {
			c.Fatalf("the layer has the odd name %q", e.Name)
		}
		if _, dup := ret.files[n]; dup {
			c.Fatalf("the layer has %q twice", n)
		}
		if d := path.Dir(n); d != "." {
			if pe, ok := ret.files[d]; !ok || pe.Type != tar.TypeDir {
				c.Fatalf("the layer has %q without, or before, its parent directory", n)
			}
		}
		ret.files[n] = e
	}
	return ret
}

// expect turns the model of an installation into layer entries.
func expect(model map[string]*wh.File, p python.Platform, max time.Time) map[string]lm.Entry {
	ret := map[string]lm.Entry{}
	put := func(n string, e lm.Entry) {
		e.Name = n
		e.UID, e.GID, e.Uname, e.Gname = p.UID, p.GID, p.UName, p.GName
		if e.MTime.After(max) {
			e.MTime = max
		}
		ret[n] = e
	}
	for n, f := range model {
		e := lm.Entry{Type: tar.TypeReg, Body: f.Body, Mode: f.Mode, MTime: f.MTime}
		if f.Dir {
			e.Type, e.Body = tar.TypeDir, ""
		}
		put(n, e)
	}
	for n := range model {
		for d := path.Dir(n); d != "."; d = path.Dir(d) {
			if _, ok := ret[d]; !ok {
				put(d, lm.Entry{Type: tar.TypeDir, Mode: 0o755, MTime: max})
			}
		}
	}
	return ret
}

// addPyc adds the output of the stub compiler to the model.
func addPyc(model map[string]*wh.File) {
	for _, n := range wh.Keys(model) {
		if f := model[n]; !f.Dir && strings.HasSuffix(n, ".py") {
			model[pycName(n)] = &wh.File{Mode: 0o644, Body: pycBody(f.Body), MTime: time.Unix(2000000000, 0)}
		}
	}
}

func show(e lm.Entry) string {
	b := e.Body
	if len(b) > 200 {
		b = fmt.Sprintf("%.200s... (%d)", b, len(b))
	}
	return fmt.Sprintf("type=%c mode=%o owner=%d:%d (%q:%q) mtime=%d link=%q body=%q", e.Type, e.Mode, e.UID, e.GID, e.Uname, e.Gname, e.MTime.Unix(), e.Link, b)
}

// diffFiles compares.
func diffFiles(want, got map[string]lm.Entry) string {
	var out []string
	for n, w := range want {
		g, ok := got[n]
		if !ok {
			out = append(out, fmt.Sprintf("%q is missing, want %s", n, show(w)))
			continue
		}
		if a, b := show(w), show(g); a != b || w.Body != g.Body {
			out = append(out, fmt.Sprintf("%q is %s, want %s", n, b, a))
		}
	}
	for n, g := range got {
		if _, ok := want[n]; !ok {
			out = append(out, fmt.Sprintf("%q should not be there: %s", n, show(g)))
		}
	}
	sort.Strings(out)
	if len(out) > 6 {
		out = append(out[:6], "...")
	}
	return strings.Join(out, "\n")
}

// oddRef is a file that a hook adds, and that cannot be opened or read on the nth opening.
type oddRef struct {
	os.FileInfo
	name, body     string
	nth, after     int
	opens, closes  int
	failed         bool
	atOpen, atRead bool
}

func (r *oddRef) FullName() string { return r.name }
func (r *oddRef) Name() string     { return path.Base(r.name) }
func (r *oddRef) Open() (io.ReadCloser, error) {
	r.opens++
	if r.opens == r.nth && r.atOpen {
		r.failed = true
		r.closes++
		return nil, errOdd
	}
	rd := io.MultiReader(strings.NewReader(r.body[:r.after]), strings.NewReader(r.body[r.after:]))
	if r.opens == r.nth && r.atRead {
		rd = io.MultiReader(strings.NewReader(r.body[:r.after]), r)
	}
	return &oddReader{rd, r}, nil
}

func (r *oddRef) Read([]byte) (int, error) { r.failed = true; return 0, errOdd }

type oddReader struct {
	io.Reader
	r *oddRef
}

func (r *oddReader) Close() error { r.r.closes++; return nil }

var errOdd = errors.New("injected failure")

func genOdd(t *rapid.T, name, body string) *oddRef {
	r := &oddRef{FileInfo: memInfo(name, body), name: name, body: body, nth: h.Weighted(t, "nth", 1, 4, 2), after: h.Int(t, "after", 0, len(body))}
	r.atOpen = rapid.Bool().Draw(t, "atopen")
	r.atRead = !r.atOpen
	return r
}

// add gives the hook that adds the file.
func (r *oddRef) add(vfs map[string]fsutil.FileReference) { vfs[r.name] = r }

func (r *oddRef) String() string {
	return fmt.Sprintf("%q, %d bytes, fails at opening %d (open=%v, after %d)", r.name, len(r.body), r.nth, r.atOpen, r.after)
}

// judge says what is wrong with an outcome.
func (r *oddRef) judge(err error) string {
	switch {
	case r.failed && err == nil:
		return "the failure was not reported"
	case !r.failed && err != nil:
		return fmt.Sprintf("failed: %v", err)
	case r.opens != r.closes:
		return fmt.Sprintf("opened %d times, closed %d times", r.opens, r.closes)
	}
	return ""
}

func memInfo(name, body string) os.FileInfo {
	return (&tar.Header{Typeflag: tar.TypeReg, Name: name, Mode: 0o640, Size: int64(len(body)), ModTime: time.Unix(1e9, 0)}).FileInfo()
}

func parseFiles(bs []byte) (map[string]lm.Entry, error) {
	l, err := lm.Parse(bs)
	ret := map[string]lm.Entry{}
	for _, e := range l {
		ret[strings.TrimSuffix(e.Name, "/")] = e
	}
	return ret, err
}
