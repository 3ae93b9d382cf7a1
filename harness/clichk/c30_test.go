package clichk

import (
	"archive/tar"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/google/go-containerregistry/pkg/name"
	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	"github.com/google/go-containerregistry/pkg/v1/empty"
	"github.com/google/go-containerregistry/pkg/v1/mutate"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
	"pgregory.net/rapid"
	"sigs.k8s.io/yaml"

	"verif.local/harness/h"
	"verif.local/harness/lm"
	"verif.local/harness/wh"
)

// pyEnv is what a (stand-in) interpreter says about itself.
type pyEnv struct {
	magic   []byte
	tags    []string
	version map[string]interface{}
	scheme  map[string]string
}

func (e pyEnv) json() []byte {
	bs, err := json.Marshal(map[string]interface{}{
		"MagicNumberB64": base64.StdEncoding.EncodeToString(e.magic),
		"Tags":           e.tags, "VersionInfo": e.version, "Scheme": e.scheme,
	})
	h.Must(err)
	return bs
}

var schemeKeys = []string{"purelib", "platlib", "headers", "scripts", "data"}

func genPyEnv(t *rapid.T) pyEnv {
	e := pyEnv{magic: rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "magic"), tags: []string{}, scheme: map[string]string{}}
	for n := h.Int(t, "ntags", 0, 3); n > 0; n-- {
		e.tags = append(e.tags, h.Pick(t, "tag", "cp39-cp39-manylinux_2_17_x86_64", "py3-none-any", "cp312-abi3-linux_x86_64", "on-no-1", "py2.py3-none-any"))
	}
	e.version = map[string]interface{}{"major": h.Int(t, "major", 2, 3), "minor": h.Int(t, "minor", 0, 13), "micro": h.Int(t, "micro", 0, 20),
		"releaselevel": h.Pick(t, "level", "final", "final", "alpha", "beta", "candidate"), "serial": h.Int(t, "serial", 0, 3)}
	return e
}

// lower makes the keys lower-case, as they are read without regard to case.
func lower(v interface{}) interface{} {
	switch v := v.(type) {
	case map[string]interface{}:
		ret := map[string]interface{}{}
		for k, x := range v {
			ret[strings.ToLower(k)] = lower(x)
		}
		return ret
	case []interface{}:
		ret := []interface{}{}
		for _, x := range v {
			ret = append(ret, lower(x))
		}
		return ret
	}
	return v
}

type pyOwner struct {
	uid, gid     int
	uname, gname string
}

// checkPlatform compares a platform file with what it has to say.
func checkPlatform(bs []byte, e pyEnv, console, graphical string, o pyOwner, compile []string) error {
	var raw interface{}
	if err := yaml.Unmarshal(bs, &raw); err != nil {
		return fmt.Errorf("not YAML: %w", err)
	}
	got, ok := lower(raw).(map[string]interface{})
	if !ok {
		return fmt.Errorf("not a mapping: %v", raw)
	}
	var magic []byte
	switch m := got["magicnumber"].(type) {
	case string:
		var err error
		if magic, err = base64.StdEncoding.DecodeString(m); err != nil {
			return err
		}
	case []interface{}:
		for _, x := range m {
			f, ok := x.(float64)
			if !ok {
				return fmt.Errorf("magic number %v", m)
			}
			magic = append(magic, byte(f))
		}
	}
	if !bytes.Equal(magic, e.magic) {
		return fmt.Errorf("magic number is %v, want %v", got["magicnumber"], e.magic)
	}
	want := map[string]interface{}{"consoleshebang": console, "graphicalshebang": graphical, "uid": o.uid, "gid": o.gid, "uname": o.uname, "gname": o.gname,
		"versioninfo": e.version, "scheme": e.scheme, "tags": e.tags, "pycompile": compile}
	bs, err := json.Marshal(want)
	h.Must(err)
	var norm map[string]interface{}
	h.Must(json.Unmarshal(bs, &norm))
	for k, w := range norm {
		if !reflect.DeepEqual(got[k], w) {
			if l, ok := w.([]interface{}); ok && len(l) == 0 && got[k] == nil {
				continue
			}
			return fmt.Errorf("%s is %v, want %v", k, got[k], w)
		}
	}
	return nil
}

const fakePython = `#!/bin/sh
case " $* " in
*" -m compileall "*) exec /usr/local/bin/python3 "$@" ;;
esac
if [ -e "$0.warn" ]; then echo '{"warning": "Could not find platform dependent libraries <exec_prefix>"}' >&2; fi
if [ -e "$0.live" ]; then exec /usr/local/bin/python3 -I -S "$0.live" "$0.json" "$@"; fi
cat "$0.json"
exit $(cat "$0.rc")
`

// livePython really runs the program that it is given, as the interpreter that the JSON file describes.
const livePython = `
import base64, collections, importlib.util, json, sys, types
with open(sys.argv[1]) as f:
    spec = json.load(f)
args = sys.argv[2:]
while args and args[0].startswith("-") and args[0] != "-c":
    args = args[2 if args[0] in ("-X", "-W") else 1:]
if len(args) < 2 or args[0] != "-c":
    sys.stderr.write("python: can't open file %r\\n" % args)
    sys.exit(2)
class Tag:
    def __init__(self, s):
        self.interpreter, self.abi, self.platform = s.split("-")
    def __str__(self):
        return "-".join([self.interpreter, self.abi, self.platform])
class Scheme:
    __slots__ = ["platlib", "purelib", "headers", "scripts", "data"]
def get_scheme(dist_name, user=False, home=None, root=None, isolated=False, prefix=None):
    s = Scheme()
    for k in Scheme.__slots__:
        setattr(s, k, spec["Scheme"][k])
    if dist_name or user or home or root or prefix:
        s.headers += "/not-asked-for"
    return s
def module(name, **attrs):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__dict__.update(attrs)
    sys.modules[name] = m
    if "." in name:
        setattr(sys.modules[name.rpartition(".")[0]], name.rpartition(".")[2], m)
tags = lambda: (Tag(s) for s in spec["Tags"])
module("packaging"); module("packaging.tags", sys_tags=tags, Tag=Tag)
module("pip"); module("pip._vendor"); module("pip._vendor.packaging"); module("pip._vendor.packaging.tags", sys_tags=tags, Tag=Tag)
module("pip._internal"); module("pip._internal.locations", get_scheme=get_scheme)
importlib.util.MAGIC_NUMBER = base64.b64decode(spec["MagicNumberB64"])
v = spec["VersionInfo"]
order = ["major", "minor", "micro", "releaselevel", "serial"]
sys.version_info = collections.namedtuple("version_info", order)(*[v[k] for k in order])
sys.argv = ["-c"] + args[2:]
exec(compile(args[1], "<string>", "exec"), {"__name__": "__main__"})
`

func (s *sandbox) python(rel string, out []byte, rc int, live bool) string {
	s.write(rel+".json", out, 0o644)
	s.write(rel+".rc", []byte(fmt.Sprint(rc)), 0o644)
	if len(out)%2 == 0 {
		// it talks on stderr, too
		s.write(rel+".warn", nil, 0o644)
	}
	if live {
		s.write(rel+".live", []byte(livePython), 0o644)
	}
	return s.write(rel, []byte(fakePython), 0o755)
}

func smallWheel() *wh.Wheel {
	w := &wh.Wheel{Dist: "foo", Version: "1.0", Purelib: true, Record: "foo-1.0.dist-info/RECORD", RecordAlgo: "sha256", RecordTime: time.Unix(1600000000, 0)}
	w.Members = []wh.Member{
		{Name: "foo/mod.py", Body: "X = 1\n"},
		{Name: "foo-1.0.data/scripts/tool", Body: "#!python\nprint()\n"},
		{Name: "foo-1.0.data/scripts/gui", Body: "#!pythonw\nprint()\n"},
		{Name: "foo-1.0.data/data/share/foo.txt", Body: "text"},
		{Name: "foo-1.0.data/headers/foo.h", Body: "int x;"},
		{Name: "foo-1.0.data/platlib/foo_native.so", Body: "elf"},
		{Name: "foo-1.0.dist-info/METADATA", Body: "Metadata-Version: 2.1\nName: foo\nVersion: 1.0\n"},
		{Name: "foo-1.0.dist-info/WHEEL", Body: "Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: true\nTag: py3-none-any\n"},
	}
	for i := range w.Members {
		w.Members[i].MTime = time.Unix(1600000000, 0)
	}
	return w
}

// wheelLayer makes a layer of a small wheel for the platform, and looks at it.
func (s *sandbox) wheelLayer(platform []byte, e pyEnv, console, graphical string, o pyOwner) error {
	s.write("platform.yml", platform, 0o644)
	w := smallWheel()
	s.write(w.Filename(), w.Zip(), 0o644)
	out := s.run(runOpts{}, "layer", "wheel", "--platform-file="+s.path("platform.yml"), s.path(w.Filename()))
	if out.rc != 0 {
		return fmt.Errorf("layer wheel: %v", out)
	}
	layer, err := lm.Parse(out.stdout)
	if err != nil {
		return err
	}
	want := map[string]string{
		e.scheme["purelib"] + "/foo/mod.py":    "X = 1\n",
		e.scheme["scripts"] + "/tool":          "#!" + console + "\nprint()\n",
		e.scheme["scripts"] + "/gui":           "#!" + graphical + "\nprint()\n",
		e.scheme["data"] + "/share/foo.txt":    "text",
		e.scheme["headers"] + "/foo.h":         "int x;",
		e.scheme["platlib"] + "/foo_native.so": "elf",
	}
	pyc := false
	for _, ent := range layer {
		pyc = pyc || strings.HasSuffix(ent.Name, ".pyc")
		if ent.UID != o.uid || ent.GID != o.gid || ent.Uname != o.uname || ent.Gname != o.gname {
			return fmt.Errorf("%v does not belong to %+v", ent, o)
		}
		p := "/" + ent.Name
		if b, ok := want[p]; ok {
			if b != ent.Body {
				return fmt.Errorf("%s is %q, want %q", p, ent.Body, b)
			}
			delete(want, p)
		}
	}
	if len(want) > 0 || !pyc {
		return fmt.Errorf("missing in the layer: %q", want)
	}
	return nil
}

func TestC30(t *testing.T) {
	p := h.Start(t, "C30", "an interpreter with a graphical companion, one that must be refused, or directories of several owners")
	p.Assume("the interpreters and docker are stand-ins; file owners on the host have names")
	known := []pyOwner{{0, 0, "root", "root"}, {1, 1, "daemon", "daemon"}, {nobody, nobody, "nobody", "nogroup"}, {1, 0, "daemon", "root"}}

	p.Run("host", 150, 1500, func(c *h.C) {
		s := newSandbox()
		defer s.done()
		e := genPyEnv(c.T)
		s.mkdir("root")
		owner := pyOwner{}
		found := false
		nowners := map[pyOwner]bool{}
		for _, k := range schemeKeys {
			d := s.path("root/" + k)
			spelled := d
			if h.OneIn(c.T, "share", 5) && k != "purelib" {
				spelled = e.scheme["purelib"]
			} else if h.Weighted(c.T, "exists", 1, 2) > 0 {
				s.mkdir("root/" + k)
				o := h.Pick(c.T, "owner", known...)
				if os.Getuid() == 0 {
					h.Must(os.Chown(d, o.uid, o.gid))
				} else {
					o = pyOwner{}
				}
				nowners[o] = true
				if !found {
					owner, found = o, true
				}
			}
			e.scheme[k] = spelled
		}
		s.mkdir("bin")
		interp := h.Pick(c.T, "interp", "python3", "python3", "pythonw3", "mypy")
		out := e.json()
		rc := 0
		bad := !found
		live := false
		switch h.Weighted(c.T, "fault", 12, 1, 1, 1, 1, 1) {
		case 0:
			live = rapid.Bool().Draw(c.T, "live")
		case 1:
			rc, bad = h.Int(c.T, "rc", 1, 3), true
		case 2:
			out, bad = out[:h.Int(c.T, "cut", 0, len(out)-1)], true
		case 3:
			out, bad = bytes.Replace(out, []byte(`"MagicNumberB64":"`), []byte(`"MagicNumberB64":"*`), 1), true
		case 4:
			e2 := e
			e2.tags = append([]string{h.Pick(c.T, "badtag", "py3-none", "any", "a-b-c-d", "")}, e.tags...)
			out, bad = e2.json(), true
		case 5:
			out, bad = []byte("Python 2.7\n"), true
		}
		s.python("bin/"+interp, out, rc, live)
		console, graphical := s.path("bin/"+interp), s.path("bin/"+interp)
		other := ""
		if interp == "python3" {
			other = "bin/pythonw3"
		} else if interp == "pythonw3" {
			other = "bin/python3"
		}
		has := other != "" && rapid.Bool().Draw(c.T, "companion")
		if has {
			s.python(other, out, rc, live)
			if interp == "python3" {
				graphical = s.path(other)
			} else {
				console = s.path(other)
			}
		}
		arg := interp
		switch h.Int(c.T, "given", 0, 2) {
		case 0:
			arg = s.path("bin/" + interp)
		case 1:
			if h.OneIn(c.T, "missing", 5) {
				arg, bad = "python9", true
			}
		}
		args := []string{"python", "inspect", "--interpreter=" + arg}
		if arg == "python3" && rapid.Bool().Draw(c.T, "default") {
			args = args[:2]
		}
		res := s.run(runOpts{env: []string{"PATH=" + s.path("bin") + ":/usr/bin:/bin"}}, args...)
		desc := fmt.Sprintf("%s of %s (rc %d), companion %v, owner %+v", strings.Join(args, " "), out, rc, has, owner)
		if res.crashed() {
			c.Fatalf("%s: %v", desc, res)
		}
		if bad {
			if res.rc != 1 || len(res.stdout) > 0 || len(res.stderr) == 0 {
				c.Fatalf("%s: %v %s", desc, res, res.stdout)
			}
			c.Label("refused")
		} else {
			if res.rc != 0 {
				c.Fatalf("%s: %v", desc, res)
			}
			if err := checkPlatform(res.stdout, e, console, graphical, owner, []string{console, "-m", "compileall"}); err != nil {
				c.Fatalf("%s: %v\n%s", desc, err, res.stdout)
			}
			if err := s.wheelLayer(res.stdout, e, console, graphical, owner); err != nil {
				c.Fatalf("%s: %v\n%s", desc, err, res.stdout)
			}
		}
		if has || bad || len(nowners) > 1 {
			c.Nontrivial(strings.ReplaceAll(desc, s.dir, "/S"))
		}
	})

	p.Run("image", 150, 1500, func(c *h.C) {
		s := newSandbox()
		defer s.done()
		e := genPyEnv(c.T)
		owner := pyOwner{}
		found := false
		var l lm.Layer
		for _, k := range schemeKeys {
			d := "opt/" + k
			if h.Weighted(c.T, "exists", 1, 2) > 0 {
				o := pyOwner{h.Int(c.T, "uid", 0, 2000), h.Int(c.T, "gid", 0, 2000), h.Pick(c.T, "uname", "", "root", "yes", "1000", "null"), h.Pick(c.T, "gname", "", "root", "on", "~")}
				l = append(l, lm.Entry{Name: d + "/", Type: tar.TypeDir, Mode: 0o755, UID: o.uid, GID: o.gid, Uname: o.uname, Gname: o.gname})
				if !found {
					owner, found = o, true
				}
			}
			e.scheme[k] = "/" + d
		}
		bad := !found
		console := "/usr/bin/python3"
		graphical := console
		l = append(l, lm.Entry{Name: "usr/bin/python3.9", Type: tar.TypeReg, Mode: 0o755, Body: "elf"}, lm.Entry{Name: "usr/bin/python3", Type: tar.TypeSymlink, Link: "python3.9", Mode: 0o777})
		has := rapid.Bool().Draw(c.T, "companion")
		if has {
			graphical = "/usr/bin/pythonw3"
			l = append(l, lm.Entry{Name: "usr/bin/pythonw3", Type: tar.TypeReg, Mode: 0o755})
		}
		layers := []ociv1.Layer{l.OCI()}
		if h.OneIn(c.T, "nopython", 8) {
			layers = append(layers, lm.Layer{{Name: "usr/bin/.wh.python3", Type: tar.TypeReg}}.OCI())
			bad = true
		}
		var img ociv1.Image
		img, err := mutate.AppendLayers(empty.Image, layers...)
		h.Must(err)
		img, err = mutate.Config(img, ociv1.Config{Env: []string{"PATH=/usr/local/bin:/usr/bin"}})
		h.Must(err)
		tag, err := name.NewTag("example.com/img:1")
		h.Must(err)
		h.Must(ociv1tarball.WriteToFile(s.path("img.tar"), tag, img))
		s.own(s.path("img.tar"))
		// docker
		s.mkdir("bin")
		s.mkdir("docker")
		rcs := map[string]int{"load": 0, "run": 0, "rm": 0}
		early := false
		if h.OneIn(c.T, "dockerfault", 3) {
			bad = true
			which := h.Pick(c.T, "which", "load", "run", "rm", "load")
			rcs[which] = h.Int(c.T, "rc", 1, 3)
			early = which == "load" && rapid.Bool().Draw(c.T, "early")
		}
		out := e.json()
		if h.OneIn(c.T, "badout", 10) {
			out, bad = []byte("{"), true
		} else if rcs["run"] == 0 && rapid.Bool().Draw(c.T, "live") {
			s.write("docker/live", []byte(livePython), 0o644)
		}
		s.write("docker/run.out", out, 0o644)
		cat := "cat >" + s.path("docker/loaded.tar")
		if early {
			cat = "true"
		}
		s.write("bin/docker", []byte(fmt.Sprintf(`#!/bin/sh
echo "$*" | head -1 >>%[1]s/log
case "$1 $2" in
"image load") %[2]s; exit %[3]d ;;
"run "*)
  if [ -e %[1]s/live ]; then
    shift
    while [ $# -gt 0 ]; do
      case "$1" in
      --entrypoint) shift 2 ;;
      -*) shift ;;
      *) break ;;
      esac
    done
    shift
    exec /usr/local/bin/python3 -I -S %[1]s/live %[1]s/run.out "$@"
  fi
  cat %[1]s/run.out; exit %[4]d ;;
"image rm") exit %[5]d ;;
esac
exit 99
`, s.path("docker"), cat, rcs["load"], rcs["run"], rcs["rm"])), 0o755)
		s.write("docker/log", nil, 0o644)
		// the host's interpreters
		var compile []string
		hosts := []string{fmt.Sprintf("python%d.%d", e.version["major"], e.version["minor"]), fmt.Sprintf("python%d", e.version["major"]), "python"}
		for _, name := range hosts {
			he := e
			ok := false
			switch h.Weighted(c.T, "host", 4, 3, 4, 1) {
			case 0:
				ok = true
				s.python("bin/"+name, he.json(), 0, rapid.Bool().Draw(c.T, "hostlive"))
			case 1:
			case 2:
				he.magic = append([]byte{byte(h.Int(c.T, "b", 0, 255))}, e.magic...)
				s.python("bin/"+name, he.json(), 0, rapid.Bool().Draw(c.T, "hostlive"))
			case 3:
				s.python("bin/"+name, he.json(), 1, false)
			}
			if ok && compile == nil {
				compile = []string{s.path("bin/" + name), "-m", "compileall"}
			}
		}
		bad = bad || compile == nil
		s.mkdir("tools")
		for _, tool := range []string{"cat", "head", "true"} {
			h.Must(os.Symlink("/bin/"+tool, s.path("tools/"+tool)))
		}
		args := []string{"python", "inspect", "--imagefile=" + s.path("img.tar"), "--interpreter=" + h.Pick(c.T, "given", "python3", "/usr/bin/python3")}
		res := s.run(runOpts{env: []string{"PATH=" + s.path("bin") + ":" + s.path("tools")}}, args...)
		logbs, err := os.ReadFile(s.path("docker/log"))
		h.Must(err)
		log := strings.Split(strings.TrimSuffix(string(logbs), "\n"), "\n")
		desc := fmt.Sprintf("inspect of %v saying %s, docker %v early %v, host %v, docker log %q", l, out, rcs, early, compile, log)
		if res.crashed() {
			c.Fatalf("%s: %v", desc, res)
		}
		// whatever was (perhaps) loaded is removed
		if loads, rms := countPrefix(log, "image load"), countPrefix(log, "image rm "); loads > 0 && (rms != 1 || !strings.HasPrefix(log[len(log)-1], "image rm ")) {
			c.Fatalf("%s: after loading, 'image rm' was called %d times", desc, rms)
		}
		loadedTag := ""
		if _, err := os.Stat(s.path("docker/loaded.tar")); err == nil && rcs["load"] == 0 {
			mf, err := ociv1tarball.LoadManifest(func() (io.ReadCloser, error) { return os.Open(s.path("docker/loaded.tar")) })
			if err != nil || len(mf) != 1 || len(mf[0].RepoTags) != 1 {
				c.Fatalf("%s: docker was given %v, %v", desc, mf, err)
			}
			loadedTag = mf[0].RepoTags[0]
			li, err := ociv1tarball.ImageFromPath(s.path("docker/loaded.tar"), nil)
			if err != nil {
				c.Fatalf("%s: docker was given: %v", desc, err)
			}
			d1, err1 := li.ConfigName()
			d2, err2 := img.ConfigName()
			if err1 != nil || err2 != nil || d1 != d2 {
				c.Fatalf("%s: docker was given another image: %v %v", desc, d1, d2)
			}
			removed := 0
			for i, line := range log {
				f := strings.Fields(line)
				switch {
				case len(f) > 1 && f[0] == "image" && f[1] == "rm":
					if f[len(f)-1] == loadedTag {
						removed++
					}
					if i != len(log)-1 {
						c.Fatalf("%s: the image was removed too early", desc)
					}
				case len(f) > 0 && f[0] == "run":
					if !contains(f, loadedTag) || !contains(f, "--rm") || !(contains(f, "--entrypoint="+console) || strings.Contains(line, "--entrypoint "+console)) {
						c.Fatalf("%s: docker was run as %q", desc, line)
					}
				}
			}
			if removed != 1 {
				c.Fatalf("%s: image %s was removed %d times", desc, loadedTag, removed)
			}
		}
		if bad {
			if res.rc != 1 || len(res.stdout) > 0 || len(res.stderr) == 0 {
				c.Fatalf("%s: %v %s", desc, res, res.stdout)
			}
			c.Label("refused")
		} else {
			if res.rc != 0 {
				c.Fatalf("%s: %v", desc, res)
			}
			if err := checkPlatform(res.stdout, e, console, graphical, owner, compile); err != nil {
				c.Fatalf("%s: %v\n%s", desc, err, res.stdout)
			}
			if err := s.wheelLayer(res.stdout, e, console, graphical, owner); err != nil {
				c.Fatalf("%s: %v\n%s", desc, err, res.stdout)
			}
			if loadedTag == "" {
				c.Fatalf("%s: nothing was loaded", desc)
			}
		}
		if has || bad {
			c.Nontrivial(strings.ReplaceAll(desc, s.dir, "/S"))
		}
	})
}

func countPrefix(l []string, prefix string) int {
	n := 0
	for _, x := range l {
		if strings.HasPrefix(x, prefix) {
			n++
		}
	}
	return n
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
