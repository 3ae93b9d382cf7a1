package clichk

import (
	"archive/tar"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"golang.org/x/sys/unix"
	"pgregory.net/rapid"

	"github.com/datawire/dlib/dlog"
	"github.com/datawire/ocibuild/pkg/dir"
	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"github.com/datawire/ocibuild/pkg/squash"
	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"verif.local/harness/h"
	"verif.local/harness/lm"
	"verif.local/harness/wh"
)

// node is one file of a directory to make a layer of.
type node struct {
	name  string
	kind  byte // d, f, l
	body  string
	mode  os.FileMode
	mtime time.Time
}

func genNodes(t *rapid.T) []node {
	used := map[string]byte{}
	var ret []node
	h.Repeat(t, "nodes", 0, 8, func(t *rapid.T) {
		n := node{name: h.Pick(t, "comp", "ta", "tb", "TA", "té", "t y", "-z", "ta.b")}
		var dirs []string
		for k, v := range used {
			if v == 'd' {
				dirs = append(dirs, k)
			}
		}
		if len(dirs) > 0 && rapid.Bool().Draw(t, "below") {
			sort.Strings(dirs)
			n.name = h.Pick(t, "parent", dirs...) + "/" + n.name
		}
		if _, ok := used[n.name]; ok {
			return
		}
		n.kind = h.Pick(t, "kind", byte('f'), 'd', 'f', 'l')
		n.body = h.Pick(t, "body", "", "text", "a/b", "/etc")
		if n.kind == 'l' && n.body == "" {
			n.body = "a"
		}
		n.mode = h.Pick(t, "mode", os.FileMode(0o644), 0o755, 0o700, 0o500)
		if n.kind == 'd' {
			n.mode |= 0o700
		}
		n.mtime = time.Unix(int64(h.Pick(t, "mtime", 0, 1, 999999999, 1000000000, 1600000000)), int64(h.Pick(t, "ns", 0, 0, 1, 500000000, 999999999)))
		if h.OneIn(t, "future", 6) {
			n.mtime = time.Unix(8000000000, 5)
		}
		used[n.name] = n.kind
		ret = append(ret, n)
	})
	return ret
}

// makeTree makes the files, in an order that depends on rev.
func (s *sandbox) makeTree(rel string, nodes []node, rootTime time.Time, rev bool) {
	s.mkdir(rel)
	order := append([]node{}, nodes...)
	if rev {
		// directories first, then the rest backwards
		sort.SliceStable(order, func(i, j int) bool {
			if order[i].kind == 'd' && order[j].kind == 'd' {
				return len(order[i].name) < len(order[j].name)
			}
			if (order[i].kind == 'd') != (order[j].kind == 'd') {
				return order[i].kind == 'd'
			}
			return order[i].name > order[j].name
		})
		s.write(rel+"/tmp file", nil, 0o644)
	}
	for _, n := range order {
		p := s.path(rel + "/" + n.name)
		switch n.kind {
		case 'd':
			h.Must(os.Mkdir(p, 0o700))
			s.own(p)
			h.Must(os.Chmod(p, n.mode))
		case 'f':
			s.write(rel+"/"+n.name, []byte(n.body), n.mode)
		case 'l':
			h.Must(os.Symlink(n.body, p))
			s.own(p)
		}
	}
	if rev {
		h.Must(os.Remove(s.path(rel + "/tmp file")))
	}
	atime := time.Unix(1500000000, 0)
	if rev {
		atime = time.Unix(1400000000, 7)
	}
	stamp := func(p string, m time.Time) {
		a, err := unix.TimeToTimespec(atime)
		h.Must(err)
		b, err := unix.TimeToTimespec(m)
		h.Must(err)
		h.Must(unix.UtimesNanoAt(unix.AT_FDCWD, p, []unix.Timespec{a, b}, unix.AT_SYMLINK_NOFOLLOW))
	}
	for i := len(order) - 1; i >= 0; i-- {
		if order[i].kind != 'd' {
			stamp(s.path(rel+"/"+order[i].name), order[i].mtime)
		}
	}
	for i := len(order) - 1; i >= 0; i-- {
		if order[i].kind == 'd' {
			stamp(s.path(rel+"/"+order[i].name), order[i].mtime)
		}
	}
	stamp(s.path(rel), rootTime)
}

// surroundings is what must not matter.
type surroundings struct {
	env   []string
	umask string
	desc  string
}

func genSurroundings(t *rapid.T, s *sandbox) surroundings {
	var o surroundings
	add := func(k string, vals ...string) {
		if rapid.Bool().Draw(t, k) {
			o.env = append(o.env, k+"="+h.Pick(t, k+"v", vals...))
		}
	}
	add("TZ", "UTC", "Asia/Tokyo", "America/St_Johns", "EST5EDT", "nonsense")
	add("LANG", "C", "tr_TR.UTF-8", "de_DE", "C.UTF-8")
	add("LC_ALL", "C", "POSIX", "C.UTF-8")
	add("GOMAXPROCS", "1", "2", "7")
	add("GOGC", "1", "off")
	add("PYTHONHASHSEED", "0", "5", "random")
	add("HOME", "/nonexistent", s.path("tmp"))
	add("USER", "root", "someone")
	add("HOSTNAME", "a", "b")
	add("DOCKER_CONFIG", "/nonexistent")
	add("XDG_CACHE_HOME", "/nonexistent")
	add("COLUMNS", "7")
	if rapid.Bool().Draw(t, "tmpdir") {
		o.env = append(o.env, "TMPDIR="+s.mkdir("a longer name for a temporary directory"))
	}
	o.umask = h.Pick(t, "umask", "", "000", "022", "077", "027")
	o.desc = strings.ReplaceAll(fmt.Sprintf("%q umask %q", o.env, o.umask), s.dir, "/S")
	return o
}

func TestC06(t *testing.T) {
	p := h.Start(t, "C06", "the pipeline has a directory with at least two files, a wheel with a source file and a squashed layer; or at least two layers made at once")
	p.Assume("owners of the files are the same; the compiler is the sandbox's Python; the go command is a stand-in")

	p.Run("pipeline", 100, 800, func(c *h.C) {
		var sb [2]*sandbox
		for i := range sb {
			sb[i] = newSandbox()
			defer sb[i].done()
		}
		nodes := genNodes(c.T)
		rootTime := time.Unix(int64(h.Pick(c.T, "roottime", 1000000000, 1600000000)), 0)
		sde := int64(h.Pick(c.T, "sde", 1000000000, 1, 1600000000, 1999999999, 9000000000, 123456789, 0, -1000000000, 3000000000))
		valid := h.Weighted(c.T, "valid", 1, 4) > 0
		sdeText := fmt.Sprint(sde)
		if !valid {
			sdeText = h.Pick(c.T, "badsde", "", "abc", "1e9", " 5", "1.5", "5 ", "0x10", "99999999999999999999", "-")
		}
		plat := wh.GenPlatform(c.T)
		w := wh.Gen(c.T, plat, wh.Opts{Data: true, Max: 5, Dirs: true})
		for i := range w.Members {
			if strings.HasSuffix(w.Members[i].Name, ".py") {
				// valid Python, whatever else it was
				w.Members[i].Body = "X = {'a', 'b', 'c', 'd'}\ndef f(a=frozenset('xyz')):\n    return a in {'p', 'q', 'r'}\n"
			}
		}
		hasEP := rapid.Bool().Draw(c.T, "ep")
		if hasEP {
			w.Members = append(w.Members, wh.Member{Name: w.DistInfo() + "/entry_points.txt", Body: "[console_scripts]\nzz1 = m:f\nzz2 = m:g\nzz3 = m:h\n[gui_scripts]\nzz4 = m:i\n", MTime: w.RecordTime, Attrs: 0o100644 << 16, Creator: 3 << 8})
		}
		platYAML, err := json.Marshal(map[string]interface{}{
			"ConsoleShebang": plat.ConsoleShebang, "GraphicalShebang": plat.GraphicalShebang, "UID": plat.UID, "GID": plat.GID, "UName": plat.UName, "GName": plat.GName,
			"Scheme":    map[string]string{"purelib": plat.Scheme.PureLib, "platlib": plat.Scheme.PlatLib, "headers": plat.Scheme.Headers, "scripts": plat.Scheme.Scripts, "data": plat.Scheme.Data},
			"PyCompile": []string{"/usr/local/bin/python3", "-m", "compileall"},
		})
		h.Must(err)
		zipped := w.Zip()
		prefix := ""
		if valid {
			prefix = h.Pick(c.T, "prefix", "", "opt/x", "usr")
		}
		bins := map[string]string{}
		for i := h.Int(c.T, "nbins", 0, 3); i > 0; i-- {
			bins[fmt.Sprintf("prog%d", i)] = h.Pick(c.T, "bin", "", "elf", "other")
		}
		stack, _ := lm.GenStack(c.T, lm.StackOpts{MaxLayers: 2, MaxFiles: 5, Whiteouts: true})
		names := []string{"dir", "wheel", "gobuild", "squash", "build"}
		var outs [2]map[string][]byte
		desc := fmt.Sprintf("%d files, wheel %v, SOURCE_DATE_EPOCH=%q prefix %q", len(nodes), w, sdeText, prefix)
		before := time.Now()
		for i, s := range sb {
			outs[i] = map[string][]byte{}
			s.makeTree("tree", nodes, rootTime, i == 1)
			s.write("plat.yml", platYAML, 0o644)
			wheel := h.Pick(c.T, "wheelname", w.Filename(), "x.whl")
			s.write(wheel, zipped, 0o644)
			s.mkdir("path")
			s.mkdir("fake")
			s.mkdir("fake/bins")
			s.write("path/go", []byte(fmt.Sprintf(fakeGo, s.path("fake"))), 0o755)
			s.write("fake/rc", []byte("0"), 0o644)
			for k, v := range bins {
				s.write("fake/bins/"+k, []byte(v), 0o755)
			}
			for j, l := range stack {
				s.write(fmt.Sprintf("in%d.tar", j), l.Tar(), 0o644)
			}
			cmd := func(name, epoch string, args ...string) {
				sur := genSurroundings(c.T, s)
				o := runOpts{umask: sur.umask, env: append([]string{"PATH=" + s.path("path") + ":/usr/local/bin:/usr/bin:/bin", "SOURCE_DATE_EPOCH=" + epoch}, sur.env...)}
				file := func(a string) string { return s.path(a) }
				if rapid.Bool().Draw(c.T, "cwd") {
					o.cwd = s.path("tree")
					file = func(a string) string { return "../" + a }
				}
				argv := []string{"layer"}
				if name == "build" {
					argv = []string{"image"}
				}
				argv = append(argv, name)
				for _, a := range args {
					if k, v, ok := strings.Cut(a, "@"); ok {
						a = k + file(v)
					}
					argv = append(argv, a)
				}
				res := s.run(o, argv...)
				desc += fmt.Sprintf("; %d: %s with %s", i, strings.ReplaceAll(strings.Join(argv, " "), s.dir, "/S"), sur.desc)
				if res.rc != 0 {
					c.Fatalf("%v: %s", res, desc)
				}
				outs[i][name] = res.stdout
				s.write("out."+name, res.stdout, 0o644)
				if left := s.leftovers(); len(left) > 0 {
					c.Fatalf("%s: left behind: %q", desc, left)
				}
			}
			other := func() string { return h.Pick(c.T, "othersde", "", "0", "1234567890", "x", "1700000000") }
			dirArgs := []string{"@tree"}
			if prefix != "" {
				dirArgs = []string{"--prefix=" + prefix, "@tree"}
			}
			cmd("dir", sdeText, dirArgs...)
			// nothing in these depends on the time of the build
			cmd("wheel", other(), "--platform-file=@plat.yml", "@"+wheel)
			if valid && sde < 1700000000 {
				cmd("gobuild", sdeText, "./...")
			}
			squashArgs := []string{"@out.dir", "@out.wheel"}
			imgArgs := []string{"--tag=example.com/img:1", "--config.Cmd=a", "--config.Env.append=A=B", "@out.wheel", "@out.dir"}
			if _, ok := outs[i]["gobuild"]; ok {
				squashArgs = append(squashArgs, "@out.gobuild")
				imgArgs = append(imgArgs, "@out.gobuild")
			}
			for j := range stack {
				squashArgs = append(squashArgs, fmt.Sprintf("@in%d.tar", j))
			}
			cmd("squash", other(), squashArgs...)
			cmd("build", other(), append(imgArgs, "@out.squash")...)
		}
		after := time.Now()
		for _, name := range names {
			if !bytes.Equal(outs[0][name], outs[1][name]) && (valid || name == "wheel" || !hasFuture(nodes)) {
				d := ""
				if name != "build" {
					l0, e0 := lm.Parse(outs[0][name])
					l1, e1 := lm.Parse(outs[1][name])
					d = fmt.Sprintf(":\n%v %v\n%v %v", l0, e0, l1, e1)
				}
				c.Fatalf("%s: the output of %s differs%s", desc, name, d)
			}
		}
		// times
		l, err := lm.Parse(outs[0]["dir"])
		if err != nil {
			c.Fatalf("%s: %v", desc, err)
		}
		want := map[string]time.Time{}
		for _, n := range nodes {
			want[filepath.Join(prefix, n.name)] = n.mtime
		}
		for _, e := range l {
			m, ok := want[strings.TrimSuffix(e.Name, "/")]
			if !ok {
				m = time.Unix(1<<40, 0)
				if prefix == "" {
					continue // the directory itself
				}
				if strings.TrimSuffix(e.Name, "/") == prefix {
					continue
				}
			}
			if valid {
				if limit := time.Unix(sde, 0); m.After(limit) {
					m = limit
				}
				if d := e.MTime.Sub(m); d > time.Second/2 || d < -time.Second/2 {
					c.Fatalf("%s: the time of %v is not %v", desc, e, m)
				}
			} else if m.After(after) {
				if e.MTime.Before(before.Add(-time.Second)) || e.MTime.After(after.Add(time.Second)) {
					c.Fatalf("%s: the time of %v is not now", desc, e)
				}
			} else if d := e.MTime.Sub(m); d > time.Second/2 || d < -time.Second/2 {
				c.Fatalf("%s: the time of %v is not %v", desc, e, m)
			}
		}
		hasPy := false
		for _, m := range w.Members {
			hasPy = hasPy || strings.HasSuffix(m.Name, ".py")
		}
		c.LabelIf(!valid, "SOURCE_DATE_EPOCH is not a number")
		c.LabelIf(outs[0]["gobuild"] != nil, "gobuild")
		if len(nodes) >= 2 && hasPy {
			c.Nontrivial(desc)
		}
	})

	// layers made at the same time by one program do not influence each other
	p.Run("concurrent", 250, 4000, func(c *h.C) {
		s := newSandbox()
		defer s.done()
		var jobs []func() ([]byte, error)
		var desc []string
		silent := logrus.New()
		silent.SetLevel(logrus.PanicLevel)
		ctx := dlog.WithLogger(context.Background(), dlog.WrapLogrus(silent))
		// a compiler that all jobs share, made from a slice with room for more
		cmdline := append(make([]string, 0, h.Pick(c.T, "room", 3, 16)), "/bin/sh", "-c", `cd "$4" && find . -type f -name '*.py' -exec sh -c 'cp "$1" "$1c"' sh {} \;`)
		shared, err := python.ExternalCompiler(cmdline...)
		h.Must(err)
		for n := h.Int(c.T, "jobs", 2, 5); n > 0; n-- {
			n := n
			switch h.Weighted(c.T, "job", 2, 2, 2, 1) {
			case 0:
				rel := fmt.Sprintf("t%d", n)
				nodes := genNodes(c.T)
				s.makeTree(rel, nodes, time.Unix(1, 0), false)
				jobs = append(jobs, func() ([]byte, error) {
					l, err := dir.LayerFromDir(s.path(rel), nil, nil, time.Unix(1500000000, 0))
					if err != nil {
						return nil, err
					}
					return lm.Bytes(l)
				})
				desc = append(desc, fmt.Sprintf("a directory of %v", nodes))
			case 1:
				plat := wh.GenPlatform(c.T)
				plat.PyCompile = func(_ context.Context, clamp time.Time, _ []string, in []fsutil.FileReference) ([]fsutil.FileReference, error) {
					var ret []fsutil.FileReference
					for _, f := range in {
						hdr := &tar.Header{Typeflag: tar.TypeReg, Name: f.FullName() + "c", Mode: 0o644, Size: 1, ModTime: clamp}
						ret = append(ret, &fsutil.InMemFileReference{FileInfo: hdr.FileInfo(), MFullName: hdr.Name, MContent: []byte("c")})
					}
					return ret, nil
				}
				w := wh.Gen(c.T, plat, wh.Opts{Data: true, Max: 4})
				w.Members = append(w.Members, wh.Member{Name: w.DistInfo() + "/entry_points.txt", Body: "[console_scripts]\nzz1 = m:f\nzz2 = m:g\n", MTime: w.RecordTime, Attrs: 0o100644 << 16, Creator: 3 << 8})
				file := s.write(fmt.Sprintf("w%d.whl", n), w.Zip(), 0o644)
				jobs = append(jobs, func() ([]byte, error) {
					l, err := bdist.InstallWheel(ctx, plat, time.Time{}, time.Time{}, file, bdist.PostInstallHooks(entry_points.CreateScripts(plat), recording_installs.Record("sha256", "me", nil)))
					if err != nil {
						return nil, err
					}
					return lm.Bytes(l)
				})
				desc = append(desc, w.String())
			case 3:
				var refs []fsutil.FileReference
				for i := h.Int(c.T, "srcs", 1, 4); i > 0; i-- {
					name, body := fmt.Sprintf("usr/lib/s%d.py", i), fmt.Sprintf("x = %d, %d\n", n, i)
					hdr := &tar.Header{Typeflag: tar.TypeReg, Name: name, Mode: 0o644, Size: int64(len(body)), ModTime: time.Unix(1e9, 0)}
					refs = append(refs, &fsutil.InMemFileReference{FileInfo: hdr.FileInfo(), MFullName: name, MContent: []byte(body)})
				}
				jobs = append(jobs, func() ([]byte, error) {
					out, err := shared(ctx, time.Unix(1.5e9, 0), nil, refs)
					if err != nil {
						return nil, err
					}
					l, err := fsutil.LayerFromFileReferences(out, time.Unix(1.5e9, 0))
					if err != nil {
						return nil, err
					}
					return lm.Bytes(l)
				})
				desc = append(desc, fmt.Sprintf("compiling %d files", len(refs)))
			case 2:
				stack, _ := lm.GenStack(c.T, lm.StackOpts{MaxLayers: 3, MaxFiles: 6, Whiteouts: true, Symlinks: true})
				var in []ociv1.Layer
				for _, l := range stack {
					in = append(in, l.OCI())
				}
				jobs = append(jobs, func() ([]byte, error) {
					l, err := squash.Squash(in)
					if err != nil {
						return nil, err
					}
					return lm.Bytes(l)
				})
				desc = append(desc, lm.Describe(stack))
			}
		}
		if h.OneIn(c.T, "twice", 2) { // the same one twice
			jobs = append(jobs, jobs[0])
		}
		all := strings.Join(desc, "; ")
		alone, aloneErr := make([][]byte, len(jobs)), make([]error, len(jobs))
		for i, j := range jobs {
			alone[i], aloneErr[i] = j()
		}
		c.Journal(all)
		var wg sync.WaitGroup
		got, errs := make([][]byte, len(jobs)), make([]error, len(jobs))
		for i := range jobs {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i] = h.Try(func() (err error) { got[i], err = jobs[i](); return })
			}()
		}
		wg.Wait()
		for i := range jobs {
			if (errs[i] == nil) != (aloneErr[i] == nil) || !bytes.Equal(got[i], alone[i]) {
				c.Fatalf("%s: layer %d made along with the others: %v, equal %v", all, i, errs[i], bytes.Equal(got[i], alone[i]))
			}
		}
		c.Nontrivial(all)
	})
}

func hasFuture(nodes []node) bool {
	for _, n := range nodes {
		if n.mtime.After(time.Now()) {
			return true
		}
	}
	return false
}
