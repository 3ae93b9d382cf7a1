package clichk

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"testing"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	"pgregory.net/rapid"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"verif.local/harness/h"
	"verif.local/harness/lm"
)

var commands = [][]string{
	{"image", "build"}, {"layer", "squash"}, {"layer", "dir"}, {"layer", "gobuild"}, {"layer", "wheel"},
	{"python", "getwheel"}, {"python", "inspect"},
}

func goodLayer(t *rapid.T) []byte {
	ls, _ := lm.GenStack(t, lm.StackOpts{Whiteouts: true, MaxLayers: 1, MaxFiles: 4})
	l := lm.Layer{{Name: "always", Type: '0', Mode: 0o644, Body: "always here " + strings.Repeat("x", 600)}}
	if len(ls) > 0 {
		l = append(l, ls[0]...)
	}
	return l.Tar()
}

// rewriteImage replaces (or, for nil, drops) the config or a layer of an image file.
func rewriteImage(bs []byte, what string, body []byte) []byte {
	var out bytes.Buffer
	w := tar.NewWriter(&out)
	r := tar.NewReader(bytes.NewReader(bs))
	for {
		hdr, err := r.Next()
		if err == io.EOF {
			break
		}
		h.Must(err)
		old, err := io.ReadAll(r)
		h.Must(err)
		isLayer := strings.HasSuffix(hdr.Name, ".tar.gz")
		if hdr.Name != "manifest.json" && isLayer == (what == "layer") {
			if body == nil {
				continue
			}
			old = body
			hdr.Size = int64(len(old))
		}
		h.Must(w.WriteHeader(hdr))
		_, err = w.Write(old)
		h.Must(err)
	}
	h.Must(w.Close())
	return out.Bytes()
}

const goodPlatform = `ConsoleShebang: /usr/bin/python3
GraphicalShebang: /usr/bin/python3
Scheme:
  purelib: /usr/lib/python3/site-packages
  platlib: /usr/lib/python3/site-packages
  headers: /usr/include/python3
  scripts: /usr/bin
  data: /usr
UID: 0
GID: 0
UName: root
GName: root
PyCompile: ['true']
`

func TestC11(t *testing.T) {
	lm.Huge = 8
	defer func() { lm.Huge = 0 }()
	p := h.Start(t, "C11", "every case is an invocation that must fail in one stated way (or, in the part 'help', must succeed)")
	p.Run("usage", 400, 4000, func(c *h.C) {
		s := newSandbox()
		defer s.done()
		var args []string
		var named string // what the message must name
		kind := h.Pick(c.T, "kind", "unknown-flag", "unknown-subcommand", "misspelled-subcommand", "no-subcommand", "too-few", "too-many", "flag-without-value", "bad-flag-value")
		switch kind {
		case "unknown-flag":
			cmd := commands[h.Int(c.T, "cmd", 0, len(commands)-1)]
			n := h.Int(c.T, "depth", 0, 2)
			args = append(append(args, cmd[:n]...), h.Pick(c.T, "flag", "--nope", "-Z", "--output-x=1", "--prefixx"))
			named, _, _ = strings.Cut(args[len(args)-1], "=")
			if n == 2 {
				args = append(args, "x", "y")
			}
		case "unknown-subcommand":
			switch h.Int(c.T, "where", 0, 1) {
			case 0:
				args = []string{h.Pick(c.T, "sub", "layers", "imag", "x", "build", "squash")}
			case 1:
				args = []string{h.Pick(c.T, "grp", "layer", "image", "python"), h.Pick(c.T, "sub", "squas", "foo", "wheels", "")}
			}
			named = args[len(args)-1]
		case "misspelled-subcommand":
			cmd := commands[h.Int(c.T, "cmd", 0, len(commands)-1)]
			cmd = cmd[:h.Int(c.T, "depth", 1, 2)]
			named = cmd[len(cmd)-1]
			k := h.Int(c.T, "where", 0, len(named)-1)
			wrong := map[string]string{"drop": named[:k] + named[k+1:], "double": named[:k+1] + named[k:], "other": named[:k] + "q" + named[k+1:], "upper": strings.ToUpper(named)}[h.Pick(c.T, "how", "drop", "double", "other", "upper")]
			args = append(append(args, cmd[:len(cmd)-1]...), wrong)
		case "no-subcommand":
			args = [][]string{{}, {"layer"}, {"image"}, {"python"}}[h.Int(c.T, "w", 0, 3)]
		case "too-few":
			args = [][]string{
				{"image", "build"}, {"image", "build", "-t", "x/y"}, {"layer", "squash"}, {"layer", "squash", "one"},
				{"layer", "dir"}, {"layer", "dir", "--prefix=x"}, {"layer", "gobuild"}, {"layer", "gobuild", "-o", "out"},
				{"layer", "wheel", "--platform-file=x"}, {"python", "getwheel"},
			}[h.Int(c.T, "w", 0, 9)]
		case "too-many":
			args = [][]string{
				{"layer", "dir", "a", "b"}, {"layer", "wheel", "--platform-file=x", "a.whl", "b.whl"},
				{"python", "getwheel", "a-1-py3-none-any.whl", "b"}, {"python", "inspect", "x"}, {"python", "inspect", "--interpreter=x", "y"},
			}[h.Int(c.T, "w", 0, 4)]
		case "flag-without-value":
			args = [][]string{
				{"layer", "dir", "x", "--prefix"}, {"image", "build", "x", "--base"}, {"layer", "gobuild", "x", "-o"},
				{"layer", "wheel", "x.whl", "--platform-file"}, {"image", "build", "x", "-e"},
			}[h.Int(c.T, "w", 0, 4)]
			named = args[len(args)-1]
			if named == "-o" || named == "-e" {
				named = named[1:]
			}
		case "bad-flag-value":
			args = [][]string{
				{"layer", "dir", "--chown-uid=x", "."}, {"layer", "dir", "--prefix-gid=", "."}, {"layer", "dir", "--prefix-uid=1.5", "."},
				{"image", "build", "--config.Env.clear=maybe", "x"},
			}[h.Int(c.T, "w", 0, 3)]
			named, _, _ = strings.Cut(args[2], "=")
		}
		o := s.run(runOpts{}, args...)
		if o.rc != 2 || len(o.stdout) != 0 || len(o.stderr) == 0 || o.crashed() {
			c.Fatalf("%s %q: %s (want exit 2, a message on stderr, and nothing on stdout)", kind, args, o)
		}
		// the message says which command was called wrongly, with what, and where help is
		path := "ocibuild"
		for n := 2; n > 0; n-- {
			for _, cmd := range commands {
				if len(args) >= n && strings.Join(args[:n], " ") == strings.Join(cmd[:n], " ") && path == "ocibuild" {
					path += " " + strings.Join(cmd[:n], " ")
				}
			}
		}
		msg := string(o.stderr)
		if kind == "no-subcommand" {
			help := s.run(runOpts{}, append(append([]string{}, args...), "--help")...)
			if help.rc != 0 || msg != string(help.stdout) {
				c.Fatalf("%q prints\n%s\nand not its help\n%s", args, msg, help.stdout)
			}
		} else if !strings.HasPrefix(msg, path+": ") || !strings.HasSuffix(msg, "See '"+path+" --help' for more information.\n") || !strings.Contains(msg, named) {
			c.Fatalf("%s %q: %s (want a message of %s that names %q and says where help is)", kind, args, o, path, named)
		}
		c.Label(kind)
		c.Nontrivial(fmt.Sprintf("%s %q", kind, args))
	})
	p.Run("help", 40, 200, func(c *h.C) {
		s := newSandbox()
		defer s.done()
		cmd := commands[h.Int(c.T, "cmd", 0, len(commands)-1)]
		n := h.Int(c.T, "depth", 0, 2)
		args := append(append([]string{}, cmd[:n]...), h.Pick(c.T, "f", "--help", "-h"))
		o := s.run(runOpts{}, args...)
		if o.rc != 0 || !bytes.Contains(o.stdout, []byte(strings.Join(append([]string{"ocibuild"}, cmd[:n]...), " "))) {
			c.Fatalf("%q: %s", args, o)
		}
		c.Nontrivial(fmt.Sprintf("%q", args))
	})
	// Broken inputs.
	p.Run("inputs", 2000, 20000, func(c *h.C) {
		s := newSandbox()
		defer s.done()
		good := func(n string) string { return s.write(n, goodLayer(c.T), 0o644) }
		// a layer file that cannot be read to the end as what it claims to be
		bad := func(n string) (string, string) {
			kind := h.Pick(c.T, "bad", "missing", "dir", "cut-gzip", "flipped-gzip", "unreadable", "empty-gzip-header")
			bs := gz(goodLayer(c.T))
			switch kind {
			case "missing":
				return s.path("nope/" + n), kind
			case "dir":
				s.mkdir(n)
				return s.path(n), kind
			case "cut-gzip":
				return s.write(n, bs[:h.Int(c.T, "cut", 10, len(bs)-1)], 0o644), kind
			case "flipped-gzip":
				// the CRC or the length at the end
				bs[len(bs)-1-h.Int(c.T, "flip", 0, 7)] ^= byte(1 << h.Int(c.T, "bit", 0, 7))
				return s.write(n, bs, 0o644), kind
			case "unreadable":
				if os.Getuid() != 0 {
					return s.path("nope/" + n), "missing"
				}
				p := s.write(n, bs, 0o644)
				h.Must(os.Lchown(p, 0, 0))
				h.Must(os.Chmod(p, 0o600))
				return p, kind
			default:
				return s.write(n, bs[:h.Int(c.T, "cut", 4, 9)], 0o644), kind
			}
		}
		// a layer that is no tar archive
		badTar := func(n string) (string, string) {
			bs := goodLayer(c.T)
			switch h.Int(c.T, "badtar", 0, 3) {
			case 0: // cut inside of the first header
				return s.write(n, bs[:h.Int(c.T, "cut", 1, 511)], 0o644), "cut-header"
			case 1: // cut inside of the first file
				return s.write(n, bs[:512+h.Int(c.T, "cut", 0, 600)], 0o644), "cut-body"
			case 2: // header checksum
				bs[h.Int(c.T, "flip", 0, 90)] ^= 0x40
				return s.write(n, bs, 0o644), "checksum"
			default:
				return s.write(n, bytes.Repeat([]byte("no tar archive at all. "), 50), 0o644), "text"
			}
		}
		var args []string
		var what string
		env := []string{"PATH=/usr/bin:/bin"}
		switch h.Int(c.T, "case", 0, 8) {
		case 0: // squash, one bad layer somewhere
			n := h.Int(c.T, "n", 2, 4)
			k := h.Int(c.T, "k", 0, n-1)
			args = []string{"layer", "squash"}
			for i := 0; i < n; i++ {
				f := ""
				if i != k {
					f = good(fmt.Sprintf("l%d", i))
				} else if rapid.Bool().Draw(c.T, "tarlevel") {
					f, what = badTar(fmt.Sprintf("l%d", i))
				} else {
					f, what = bad(fmt.Sprintf("l%d", i))
				}
				args = append(args, f)
			}
		case 1, 2: // image build, one bad layer somewhere
			n := h.Int(c.T, "n", 1, 3)
			k := h.Int(c.T, "k", 0, n-1)
			args = []string{"image", "build"}
			if rapid.Bool().Draw(c.T, "cfg") {
				args = append(args, "-e", "A=B")
			}
			for i := 0; i < n; i++ {
				f := ""
				if i != k {
					f = good(fmt.Sprintf("l%d", i))
				} else {
					f, what = bad(fmt.Sprintf("l%d", i))
				}
				args = append(args, f)
			}
		case 3: // image build, bad base
			args = []string{"image", "build"}
			if rapid.Bool().Draw(c.T, "cfg") {
				args = append(args, "-e", "A=B")
			}
			base := genBase(c.T, s.dir)
			what = h.Pick(c.T, "badbase", "missing", "dir", "no-image", "cut", "empty", "bad-config", "no-config", "no-layer")
			switch what {
			case "missing":
				args = append(args, "--base="+s.path("nope"))
			case "dir":
				args = append(args, "--base="+s.mkdir("d"))
			case "no-image":
				args = append(args, "--base="+good("base"))
			case "cut": // the manifest is last
				args = append(args, "--base="+s.write("base", base.file[:h.Int(c.T, "cut", 0, len(base.file)-1025-512)], 0o644))
			case "empty":
				args = append(args, "--base="+s.write("base", nil, 0o644))
			case "bad-config":
				args = append(args, "--base="+s.write("base", rewriteImage(base.file, "config", []byte(h.Pick(c.T, "cfgbytes", "{", "", "[]", "\"x\""))), 0o644))
			case "no-config":
				args = append(args, "--base="+s.write("base", rewriteImage(base.file, "config", nil), 0o644))
			case "no-layer":
				if len(base.layers) == 0 {
					what = "missing"
					args = append(args, "--base="+s.path("nope"))
				} else {
					args = append(args, "--base="+s.write("base", rewriteImage(base.file, "layer", nil), 0o644))
				}
			}
			args = append(args, good("l"))
		case 4: // bad tag
			what = "bad-tag"
			args = []string{"image", "build", "-t", h.Pick(c.T, "tag", "UPPER/case:x", "a b", "x@sha256:00", "ok/ok:bad tag", ":x"), good("l")}
		case 5: // dir
			what = h.Pick(c.T, "baddir", "missing", "file", "unreadable-subdir", "unreadable-file", "abs-prefix", "dotdot-prefix")
			d := s.mkdir("d")
			s.write("d/f", []byte("x"), 0o644)
			args = []string{"layer", "dir", d}
			switch what {
			case "missing":
				args[2] = s.path("nope")
			case "file":
				args[2] = s.path("d/f")
			case "unreadable-subdir":
				s.mkdir("d/sub")
				h.Must(os.Chmod(s.path("d/sub"), 0))
				defer func() { h.Must(os.Chmod(s.path("d/sub"), 0o755)) }()
			case "unreadable-file":
				h.Must(os.Chmod(s.path("d/f"), 0))
			case "abs-prefix":
				args = append(args, "--prefix=/usr")
			case "dotdot-prefix":
				args = append(args, "--prefix=../x")
			}
			if os.Getuid() != 0 && strings.HasPrefix(what, "unreadable") {
				args[2] = s.path("nope")
			}
		case 6: // wheel
			plat := goodPlatform
			w := smallWheel()
			whl := s.write(w.Filename(), w.Zip(), 0o644)
			what = h.Pick(c.T, "badwheel", "zip", "cut-zip", "missing-wheel", "empty-wheel", "dir-wheel", "missing-platform", "malformed-yaml", "unknown-field", "wrong-type", "relative-scheme", "no-shebang", "no-compiler", "compiler-missing", "compiler-fails", "empty-platform", "dir-platform")
			plat = strings.Replace(plat, "['true']", "[/usr/local/bin/python3, -m, compileall]", 1)
			switch what {
			case "zip":
				whl = s.write(w.Filename(), []byte("PK no zip"), 0o644)
			case "cut-zip":
				bs := w.Zip()
				whl = s.write(w.Filename(), bs[:h.Int(c.T, "cut", 0, len(bs)-23)], 0o644)
			case "empty-wheel":
				whl = s.write(w.Filename(), nil, 0o644)
			case "dir-wheel":
				whl = s.mkdir("d")
			case "empty-platform":
				plat = h.Pick(c.T, "nothing", "", "{}\n", "# nothing\n", "PyCompile: [/usr/local/bin/python3, -m, compileall]\n")
			case "compiler-fails":
				plat = strings.Replace(plat, "[/usr/local/bin/python3, -m, compileall]", "[/bin/false]", 1)
			case "missing-wheel":
				whl = s.path("nope.whl")
			case "malformed-yaml":
				plat = "a: [b\n"
			case "unknown-field":
				plat += "Bogus: 1\n"
			case "wrong-type":
				plat = strings.Replace(plat, "UID: 0", "UID: zero", 1)
			case "relative-scheme":
				plat = strings.Replace(plat, "scripts: /usr/bin", "scripts: usr/bin", 1)
			case "no-shebang":
				plat = strings.ReplaceAll(plat, ": /usr/bin/python3", ":")
			case "no-compiler":
				plat = strings.Replace(plat, "[/usr/local/bin/python3, -m, compileall]", h.Pick(c.T, "none", "[]", "null"), 1)
			case "compiler-missing":
				plat = strings.Replace(plat, "/usr/local/bin/python3", "no-such-command-xyz", 1)
			}
			pf := s.write("plat.yml", []byte(plat), 0o644)
			if what == "dir-platform" {
				pf = s.mkdir("pd")
			}
			if what == "missing-platform" {
				pf = s.path("nope.yml")
			}
			args = []string{"layer", "wheel", "--platform-file=" + pf, whl}
		case 7: // gobuild
			what = h.Pick(c.T, "badgo", "no-go", "go-fails", "go-killed", "no-tmp")
			s.mkdir("path")
			env = []string{"PATH=" + s.path("path")}
			switch what {
			case "go-fails":
				s.write("path/go", []byte("#!/bin/sh\necho out; exit 3\n"), 0o755)
			case "go-killed":
				s.write("path/go", []byte("#!/bin/sh\nkill -9 $$\n"), 0o755)
			case "no-tmp":
				s.write("path/go", []byte("#!/bin/sh\nexit 0\n"), 0o755)
				env = append(env, "TMPDIR="+s.path("no/tmp"))
			}
			args = []string{"layer", "gobuild", "."}
		case 8: // python
			what = h.Pick(c.T, "badpy", "no-interpreter", "interpreter-fails", "interpreter-lies", "no-imagefile", "bad-imagefile", "getwheel-name", "getwheel-refused")
			s.mkdir("path")
			switch what {
			case "no-interpreter":
				args = []string{"python", "inspect", "--interpreter=no-such-python"}
			case "interpreter-fails":
				args = []string{"python", "inspect", "--interpreter=" + s.write("path/py", []byte("#!/bin/sh\necho '{}'; exit 1\n"), 0o755)}
			case "interpreter-lies":
				args = []string{"python", "inspect", "--interpreter=" + s.write("path/py", []byte("#!/bin/sh\necho 'hello'\n"), 0o755)}
			case "no-imagefile":
				args = []string{"python", "inspect", "--imagefile=" + s.path("nope")}
			case "bad-imagefile":
				args = []string{"python", "inspect", "--imagefile=" + good("img")}
			case "getwheel-name":
				args = []string{"python", "getwheel", h.Pick(c.T, "wn", "x", "x.whl", "a-b.whl", "a-1-py3-none-any.tar.gz", "a-1-2-3-4-py3-none-any.whl", "../a")}
			case "getwheel-refused":
				args = []string{"python", "getwheel", "--index-server=http://127.0.0.1:1/simple/", "a-1-py3-none-any.whl"}
			}
		}
		c.Journal(fmt.Sprintf("%s %q", what, args))
		o := s.run(runOpts{env: env}, args...)
		short := fmt.Sprintf("%s %s", what, strings.ReplaceAll(fmt.Sprintf("%q", args), s.dir, "$D"))
		if o.crashed() {
			c.Fatalf("%s: crashed: %s", short, o)
		}
		if o.rc != 1 || len(o.stdout) != 0 || len(o.stderr) == 0 {
			c.Fatalf("%s: %s (want exit 1, a message on stderr, and nothing on stdout)", short, o)
		}
		if left := s.leftovers(); len(left) > 0 {
			c.Fatalf("%s: left behind in the temporary directory: %q", short, left)
		}
		c.Label(args[1] + ":" + what)
		c.Nontrivial(short)
	})
	// Writing a layer out gives its exact bytes, or an error.
	p.Run("write", 1500, 20000, func(c *h.C) {
		body := rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(c.T, "body")
		for n := h.Weighted(c.T, "grow", 3, 1, 1); n > 0; n-- {
			body = bytes.Repeat(body, 40)
		}
		if h.OneIn(c.T, "huge", 50) {
			body = bytes.Repeat([]byte("0123456789abcdef"), h.Pick(c.T, "len", 1<<12, 1<<16+1, 1<<17+3))
		}
		l := &faultyLayer{body: body, failRead: -1}
		out := &faultyWriter{room: -1}
		kind := h.Pick(c.T, "kind", "good", "open", "read", "close", "write")
		at := h.Int(c.T, "at", 0, len(body))
		switch kind {
		case "open":
			l.failOpen = true
		case "read":
			l.failRead = at
		case "close":
			l.failClose = true
		case "write":
			if len(body) == 0 {
				kind = "good"
			} else {
				out.room = h.Int(c.T, "room", 0, len(body)-1)
			}
		}
		desc := fmt.Sprintf("%s (at %d) of a layer of %d bytes", kind, at, len(body))
		err := fsutil.WriteLayer(l, out)
		if (err != nil) != (kind != "good") {
			c.Fatalf("%s: %v", desc, err)
		}
		if l.opened != l.closed {
			c.Fatalf("%s: opened %d times, closed %d times", desc, l.opened, l.closed)
		}
		if kind == "good" && !bytes.Equal(out.Bytes(), body) || !bytes.HasPrefix(body, out.Bytes()) {
			c.Fatalf("%s: wrote %d other bytes", desc, out.Len())
		}
		c.Label("write:" + kind)
		c.Nontrivial(desc)
	})
	// Output that cannot be written is an error, wherever it happens.
	p.Run("full", 60, 500, func(c *h.C) {
		s := newSandbox()
		defer s.done()
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		h.Must(err)
		defer f.Close()
		var args []string
		s.mkdir("d")
		s.write("d/f", []byte(lm.GenBody(c.T)), 0o644)
		switch h.Int(c.T, "cmd", 0, 5) {
		case 3:
			w := smallWheel()
			args = []string{"layer", "wheel", "--platform-file=" + s.write("plat.yml", []byte(strings.Replace(goodPlatform, "['true']", "[/usr/local/bin/python3, -m, compileall]", 1)), 0o644), s.write(w.Filename(), w.Zip(), 0o644)}
		case 4:
			e := genPyEnv(c.T)
			for _, k := range schemeKeys {
				e.scheme[k] = s.path("d")
			}
			args = []string{"python", "inspect", "--interpreter=" + s.python("python", e.json(), 0, false)}
		case 5:
			body := strings.Repeat("wheel", h.Int(c.T, "len", 1, 4000))
			srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				if strings.HasSuffix(r.URL.Path, ".whl") {
					_, _ = io.WriteString(w, body)
				} else {
					w.Header().Set("Content-Type", "text/html")
					_, _ = io.WriteString(w, "<!DOCTYPE html><html><body><a href=\"/f/a-1-py3-none-any.whl\">a-1-py3-none-any.whl</a></body></html>")
				}
			}))
			defer srv.Close()
			args = []string{"python", "getwheel", "--index-server=" + srv.URL + "/simple/", "a-1-py3-none-any.whl"}
		case 0:
			args = []string{"layer", "squash", s.write("a", goodLayer(c.T), 0o644), s.write("b", goodLayer(c.T), 0o644)}
		case 1:
			args = []string{"image", "build", s.write("a", goodLayer(c.T), 0o644)}
		case 2:
			args = []string{"layer", "dir", s.path("d")}
		}
		if good := s.run(runOpts{}, args...); good.rc != 0 || len(good.stdout) == 0 {
			c.Fatalf("%q with room for the output: %s", args[:2], good)
		}
		o := s.run(runOpts{stdout: f}, args...)
		if o.rc != 1 || len(o.stderr) == 0 || o.crashed() {
			c.Fatalf("%q with a full disk: %s", args[:2], o)
		}
		c.Nontrivial(fmt.Sprintf("%q %x", args[:2], len(lm.GenBody(c.T))))
	})
}

// faultyLayer is a layer of which opening, reading or closing may fail.
type faultyLayer struct {
	ociv1.Layer
	body                []byte
	failOpen, failClose bool
	failRead            int
	opened, closed      int
}

var errInjected = errors.New("injected error")

func (l *faultyLayer) Uncompressed() (io.ReadCloser, error) {
	if l.failOpen {
		return nil, errInjected
	}
	l.opened++
	return &faultyReader{l: l, r: bytes.NewReader(l.body)}, nil
}

type faultyReader struct {
	l *faultyLayer
	r *bytes.Reader
	n int

	closed bool
}

func (r *faultyReader) Read(p []byte) (int, error) {
	if r.l.failRead >= 0 {
		if r.n >= r.l.failRead {
			return 0, errInjected
		}
		if len(p) > r.l.failRead-r.n {
			p = p[:r.l.failRead-r.n]
		}
	}
	n, err := r.r.Read(p)
	r.n += n
	return n, err
}

func (r *faultyReader) Close() error {
	if !r.closed {
		r.l.closed++
	}
	r.closed = true
	if r.l.failClose {
		return errInjected
	}
	return nil
}

// faultyWriter accepts only so many bytes.
type faultyWriter struct {
	bytes.Buffer
	room int
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	if w.room >= 0 && w.Len()+len(p) > w.room {
		n, _ := w.Buffer.Write(p[:w.room-w.Len()])
		return n, errInjected
	}
	return w.Buffer.Write(p)
}

// ReadFrom would get around Write.
func (w *faultyWriter) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{w}, r)
}
