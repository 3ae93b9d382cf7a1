package clichk

import (
	"archive/tar"
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif.local/harness/h"
	"verif.local/harness/lm"
)

// fakeGo stands in for the go command: it writes down how it was called, talks on both of its
// outputs, and copies prepared "binaries" to the output directory.
const fakeGo = `#!/bin/sh
log=%[1]s/log
{
  printf 'GOOS=%%s\nGOARCH=%%s\nGOFLAGS=%%s\nXYZ=%%s\n' "$GOOS" "$GOARCH" "$GOFLAGS" "$XYZ"
  printf 'cwd=%%s\n' "$(pwd -P)"
  for a; do printf 'arg=%%s\n' "$a"; done
} >"$log"
echo "noise on stdout"
echo "noise on stderr" >&2
out=
while [ $# -gt 0 ]; do
  case "$1" in
    -o) out=$2; shift 2;;
    -o=*) out=${1#-o=}; shift;;
    --) break;;
    *) shift;;
  esac
done
if [ -n "$out" ]; then
  [ -d "$out" ] || exit 90
  for f in %[1]s/bins/*; do
    [ -e "$f" ] && cp -p "$f" "$out/"
  done
fi
exit $(cat %[1]s/rc)
`

type goModel struct {
	bins map[string]string // name -> contents
	mode map[string]os.FileMode
	old  bool // binaries have old times
}

func (m goModel) String() string {
	var ks []string
	for k, v := range m.bins {
		ks = append(ks, fmt.Sprintf("%s(%o)=%d:%.8q", k, m.mode[k], len(v), v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// checkGoLayer compares a layer with the binaries.
func checkGoLayer(bs []byte, m goModel, clamp int64) string {
	l, err := lm.Parse(bs)
	if err != nil {
		return "not a readable layer: " + err.Error()
	}
	if lm.TrailingJunk(bs) {
		return "something else follows the layer"
	}
	want := map[string]bool{"usr": true, "usr/local": true, "usr/local/bin": true}
	for k := range m.bins {
		want["usr/local/bin/"+k] = true
	}
	seen := map[string]bool{}
	for _, e := range l {
		n := strings.TrimSuffix(e.Name, "/")
		if seen[n] {
			return n + " is in the layer twice"
		}
		seen[n] = true
		if !want[n] {
			return n + " is in the layer"
		}
		if d := filepath.Dir(n); d != "." && !seen[d] {
			return n + " comes before its directory"
		}
		if e.UID != 0 || e.GID != 0 || e.Uname != "root" || e.Gname != "root" {
			return fmt.Sprintf("%s belongs to %d(%s):%d(%s)", n, e.UID, e.Uname, e.GID, e.Gname)
		}
		if clamp >= 0 && e.MTime.Unix() > clamp {
			return fmt.Sprintf("%s has time %d, after SOURCE_DATE_EPOCH=%d", n, e.MTime.Unix(), clamp)
		}
		if strings.Count(n, "/") < 3 {
			if e.Type != tar.TypeDir || e.Mode&0o7777 != 0o755 {
				return fmt.Sprintf("%s is not a 0755 directory: %v", n, e)
			}
			continue
		}
		b := filepath.Base(n)
		if e.Type != tar.TypeReg || e.Body != m.bins[b] || os.FileMode(e.Mode&0o7777) != m.mode[b] {
			return fmt.Sprintf("%s: got %v, want mode %o and %q", n, e, m.mode[b], m.bins[b])
		}
	}
	if len(seen) != len(want) {
		return fmt.Sprintf("the layer has %d entries, want %d", len(seen), len(want))
	}
	return ""
}

func TestC09(t *testing.T) {
	p := h.Start(t, "C09", "the history has at least two runs of `layer gobuild` that write to the same file")
	p.Run("histories", 250, 3000, func(c *h.C) {
		s := newSandbox()
		defer s.done()
		s.mkdir("path")
		s.mkdir("fake")
		s.mkdir("fake/bins")
		s.mkdir("work")
		s.write("path/go", []byte(fmt.Sprintf(fakeGo, s.path("fake"))), 0o755)
		m := goModel{bins: map[string]string{}, mode: map[string]os.FileMode{}}
		setBins := func() {
			des, err := os.ReadDir(s.path("fake/bins"))
			h.Must(err)
			for _, de := range des {
				h.Must(os.Remove(s.path("fake/bins/" + de.Name())))
			}
			for k, v := range m.bins {
				f := s.write("fake/bins/"+k, []byte(v), m.mode[k])
				if m.old {
					h.Must(os.Chtimes(f, time.Unix(1000000000, 0), time.Unix(1000000000, 0)))
				}
			}
		}
		var history []string
		outName := h.Pick(c.T, "outname", "out.tar", "sub/out.tar", "layer file")
		if strings.Contains(outName, "/") {
			s.mkdir("work/" + filepath.Dir(outName))
		}
		outPath := s.path("work/" + outName)
		writes := 0
		sawSame, sawChanged, sawFail := false, false, false
		fileState := "" // what the model says the output file holds ("" if missing)
		h.Repeat(c.T, "steps", 2, 7, func(t *rapid.T) {
			// what changes before the build
			for i := h.Int(t, "changes", 0, 2); i > 0; i-- {
				name := h.Pick(t, "bin", "a", "b", "prog", "x-y")
				switch h.Weighted(t, "chg", 5, 2, 1, 1) {
				case 0:
					body := h.Pick(t, "body", "one", "two", "", "\x7fELF...", "one ")
					if h.OneIn(t, "big", 4) {
						body = strings.Repeat(h.Pick(t, "fill", "q", "r"), 5000) + h.Pick(t, "tail", "x", "y")
					}
					m.bins[name] = body
					m.mode[name] = 0o755
				case 1:
					delete(m.bins, name)
					delete(m.mode, name)
				case 2:
					if _, ok := m.bins[name]; ok {
						m.mode[name] = h.Pick(t, "mode", os.FileMode(0o700), 0o755, 0o555)
					}
				case 3:
					m.old = !m.old
				}
			}
			setBins()
			rc := 0
			if h.OneIn(t, "fail", 5) {
				rc = h.Pick(t, "rc", 1, 2, 127)
			}
			s.write("fake/rc", []byte(strconv.Itoa(rc)+"\n"), 0o644)
			if h.OneIn(t, "rm", 8) && fileState != "" {
				h.Must(os.Remove(outPath))
				fileState = ""
				history = append(history, "rm output")
			}
			clamp := int64(-1)
			env := []string{"PATH=" + s.path("path") + ":/usr/bin:/bin"}
			switch h.Weighted(t, "sde", 2, 2, 1) {
			case 1:
				clamp = int64(h.Pick(t, "epoch", 0, 1, 1234567890, 1600000000))
				env = append(env, fmt.Sprintf("SOURCE_DATE_EPOCH=%d", clamp))
			case 2:
				env = append(env, "SOURCE_DATE_EPOCH=")
			}
			env = append(env, "GOFLAGS="+h.Pick(t, "goflags", "", "-tags=x", "-mod=vendor -v"), "XYZ=pass through")
			goos := h.Pick(t, "goos", "", "darwin", "windows", "linux")
			if goos != "" {
				env = append(env, "GOOS="+goos)
			}
			if a := h.Pick(t, "goarch", "", "arm64", "386"); a != "" {
				env = append(env, "GOARCH="+a)
			}
			pkgs := []string{h.Pick(t, "pkg", "./cmd/...", ".", "example.com/x", "./a b")}
			h.Repeat(t, "morepkgs", 0, 2, func(t *rapid.T) {
				pkgs = append(pkgs, h.Pick(t, "pkg", "./z", "./a", "-race", "-o=/nope"))
			})
			toFile := h.Weighted(t, "to", 1, 3) == 1
			args := []string{"layer", "gobuild"}
			if toFile {
				switch h.Int(t, "spell", 0, 2) {
				case 0:
					args = append(args, "--output="+outName)
				case 1:
					args = append(args, "-o", outName)
				case 2:
					args = append(args, "--output", outPath)
				}
			}
			args = append(append(args, "--"), pkgs...)
			_ = os.Remove(s.path("fake/log"))
			before, beforeErr := os.ReadFile(outPath)
			var stBefore os.FileInfo
			if beforeErr == nil {
				if h.OneIn(t, "chmod", 2) {
					h.Must(os.Chmod(outPath, h.Pick[os.FileMode](t, "outmode", 0o600, 0o640, 0o444, 0o666)))
				}
				h.Must(os.Chtimes(outPath, time.Unix(1111111111, 0), time.Unix(1111111111, 0)))
				stBefore, _ = os.Lstat(outPath)
			}
			o := s.run(runOpts{cwd: s.path("work"), env: env}, args...)
			history = append(history, fmt.Sprintf("go->%d {%s} old=%v sde=%d file=%v", rc, m, m.old, clamp, toFile))
			hist := strings.Join(history, "; ")
			fail := func(format string, a ...interface{}) {
				t.Helper()
				t.Fatalf("%s\n%s\nhistory: %s", fmt.Sprintf(format, a...), o, hist)
			}
			// how go was called
			logbs, err := os.ReadFile(s.path("fake/log"))
			if err != nil {
				fail("go was not called: %v", err)
			}
			checkGoLog(fail, string(logbs), env, pkgs, s)
			if left := s.leftovers(); len(left) > 0 {
				fail("left behind in the temporary directory: %q", left)
			}
			after, afterErr := os.ReadFile(outPath)
			untouched := func() bool {
				if (beforeErr == nil) != (afterErr == nil) || !bytes.Equal(before, after) {
					return false
				}
				if beforeErr != nil {
					return true
				}
				st, err := os.Lstat(outPath)
				h.Must(err)
				return os.SameFile(st, stBefore) && st.ModTime().Equal(stBefore.ModTime()) && st.Mode() == stBefore.Mode()
			}
			if rc != 0 {
				sawFail = true
				if o.rc != 1 || len(o.stdout) != 0 {
					fail("go failed with %d, but ocibuild did not fail quietly", rc)
				}
				if !untouched() {
					fail("go failed, but the output file changed")
				}
				return
			}
			if o.rc != 0 {
				fail("ocibuild failed")
			}
			if !toFile {
				if msg := checkGoLayer(o.stdout, m, clamp); msg != "" {
					fail("stdout: %s", msg)
				}
				if !untouched() {
					fail("the layer went to stdout, but the file changed")
				}
				return
			}
			writes++
			if len(o.stdout) != 0 {
				fail("output on stdout although there is --output")
			}
			if afterErr != nil {
				fail("no output file: %v", afterErr)
			}
			state := fmt.Sprintf("%q %v", m.bins, m.mode) // fmt sorts maps
			if fileState == state {
				sawSame = true
				if !untouched() {
					fail("nothing but times changed, but the output file was written again")
				}
				if msg := checkGoLayer(after, m, -1); msg != "" {
					fail("output file: %s", msg)
				}
			} else {
				sawChanged = true
				if msg := checkGoLayer(after, m, clamp); msg != "" {
					fail("output file: %s", msg)
				}
				st, _ := os.Lstat(outPath)
				if st.Sys().(*syscall.Stat_t).Nlink != 1 || !st.Mode().IsRegular() {
					fail("odd output file")
				}
			}
			fileState = state
		})
		c.LabelIf(sawSame, "unchanged-rebuild")
		c.LabelIf(sawChanged, "changed-rebuild")
		c.LabelIf(sawFail, "failed-build")
		if writes >= 2 {
			c.Nontrivial(outName + ": " + strings.Join(history, "; "))
		}
	})
	// Not being able to write, or to compare with, the output file is an error.
	p.Run("bad-output", 30, 300, func(c *h.C) {
		s := newSandbox()
		defer s.done()
		s.mkdir("path")
		s.mkdir("fake")
		s.mkdir("fake/bins")
		s.write("fake/rc", []byte("0\n"), 0o644)
		s.write("path/go", []byte(fmt.Sprintf(fakeGo, s.path("fake"))), 0o755)
		body := lm.GenBody(c.T)
		s.write("fake/bins/prog", []byte(body), 0o755)
		env := []string{"PATH=" + s.path("path") + ":/usr/bin:/bin"}
		kind := h.Pick(c.T, "kind", "missing-dir", "is-dir", "dev-full", "ro-dir")
		args := []string{"layer", "gobuild"}
		var ro runOpts
		ro.env = env
		switch kind {
		case "missing-dir":
			args = append(args, "-o", "no/such/file")
		case "is-dir":
			s.mkdir("isdir")
			s.write("isdir/keep", []byte("x"), 0o644)
			args = append(args, "-o", "isdir")
		case "ro-dir":
			if os.Getuid() != 0 {
				return
			}
			d := s.path("ro")
			h.Must(os.Mkdir(d, 0o755)) // belongs to root
			args = append(args, "-o", "ro/out")
		case "dev-full":
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			h.Must(err)
			defer f.Close()
			ro.stdout = f
		}
		o := s.run(ro, append(args, ".")...)
		if o.rc != 1 || len(o.stdout) != 0 || o.crashed() {
			c.Fatalf("%s: %s", kind, o)
		}
		if kind == "is-dir" {
			if _, err := os.Stat(s.path("isdir/keep")); err != nil {
				c.Fatalf("%s: %v", kind, err)
			}
		}
		if left := s.leftovers(); len(left) > 0 {
			c.Fatalf("%s: left behind in the temporary directory: %q", kind, left)
		}
		c.Nontrivial(kind + body)
	})
}

func checkGoLog(fail func(string, ...interface{}), log string, env, pkgs []string, s *sandbox) {
	vars := map[string]string{}
	var args []string
	for _, ln := range strings.Split(strings.TrimSuffix(log, "\n"), "\n") {
		k, v, _ := strings.Cut(ln, "=")
		if k == "arg" {
			args = append(args, v)
		} else {
			vars[k] = v
		}
	}
	if vars["GOOS"] != "linux" || vars["GOARCH"] != "amd64" {
		fail("go was run with GOOS=%q GOARCH=%q", vars["GOOS"], vars["GOARCH"])
	}
	for _, kv := range env {
		k, v, _ := strings.Cut(kv, "=")
		if (k == "GOFLAGS" || k == "XYZ") && vars[k] != v {
			fail("go was run with %s=%q, not %q", k, vars[k], v)
		}
	}
	if vars["cwd"] != s.path("work") {
		fail("go was run in %q", vars["cwd"])
	}
	if len(args) == 0 || args[0] != "build" {
		fail("go was run with %q", args)
	}
	sep := -1
	for i, a := range args {
		if a == "--" {
			sep = i
			break
		}
	}
	trim := false
	if sep < 0 {
		fail("go was run with %q: packages may be taken for flags", args)
	}
	for _, a := range args[:sep] {
		trim = trim || a == "-trimpath" || a == "-trimpath=true"
	}
	if !trim {
		fail("go was run without -trimpath: %q", args)
	}
	if fmt.Sprintf("%q", args[sep+1:]) != fmt.Sprintf("%q", pkgs) {
		fail("go was run for the packages %q, not %q", args[sep+1:], pkgs)
	}
}
