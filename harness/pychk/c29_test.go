package pychk

import (
	"archive/tar"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/datawire/dlib/dexec"
	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	"github.com/google/go-containerregistry/pkg/v1/empty"
	"github.com/google/go-containerregistry/pkg/v1/mutate"
	"pgregory.net/rapid"

	"github.com/datawire/ocibuild/pkg/python/pyinspect"
	"verif.local/harness/h"
	"verif.local/harness/lm"
)

var (
	binDirs = []string{"bin", "usr/bin", "usr/local/bin", "opt/py/bin", "work", "work/bin"}
	pyNames = []string{"python", "python3", "python3", "python3.9", "pythonw", "pythonw3", "pythonw3", "pythonw3.9", "pypy", "ipython", "pythonipython", "pythonwipython", "pythonww3"}
)

func genPyImage(t *rapid.T) []lm.Layer {
	var ret []lm.Layer
	own := func(e lm.Entry) lm.Entry {
		e.UID, e.GID = h.Int(t, "uid", 0, 3)*1000, h.Int(t, "gid", 0, 3)*7
		e.Uname, e.Gname = h.Pick(t, "uname", "", "root", "app"), h.Pick(t, "gname", "", "root", "staff")
		return e
	}
	for n := h.Weighted(t, "nlayers", 0, 4, 2, 1); n > 0; n-- {
		var l lm.Layer
		if len(ret) == 0 {
			for _, d := range []string{"usr", "usr/bin", "usr/local", "usr/local/bin", "opt", "opt/py", "opt/py/bin", "work", "work/bin", "lib"} {
				if h.Weighted(t, "dir", 1, 6) > 0 {
					l = append(l, own(lm.Entry{Name: d + "/", Type: tar.TypeDir, Mode: int64(h.Pick(t, "dmode", 0o755, 0o755, 0o700, 0o777))}))
				}
			}
			if rapid.Bool().Draw(t, "binlink") {
				l = append(l, lm.Entry{Name: "bin", Type: tar.TypeSymlink, Link: h.Pick(t, "binto", "usr/bin", "/usr/bin", "usr/./bin"), Mode: 0o777})
			} else {
				l = append(l, own(lm.Entry{Name: "bin/", Type: tar.TypeDir, Mode: 0o755}))
			}
		}
		seen := map[string]bool{}
		for k := h.Int(t, "nfiles", 2, 12); k > 0; k-- {
			name := h.Pick(t, "in", binDirs[1:]...) + "/" + h.Pick(t, "py", pyNames...)
			if seen[name] {
				continue
			}
			seen[name] = true
			switch h.Weighted(t, "kind", 8, 4, 1, 1) {
			case 0:
				l = append(l, own(lm.Entry{Name: name, Type: tar.TypeReg, Body: "x", Mode: int64(h.Pick(t, "mode", 0o755, 0o755, 0o755, 0o644, 0o111, 0, 0o700, 0o010, 0o001, 0o4755, 0o666))}))
			case 1:
				l = append(l, lm.Entry{Name: name, Type: tar.TypeSymlink, Mode: 0o777, Link: h.Pick(t, "abs", "", "", "/usr/bin/", "../../usr/local/bin/", "/bin/", "/opt/py/bin/", "../local/../bin/", "/bin/../bin/", "/usr/bin/../../opt/py/bin/") + h.Pick(t, "to", pyNames...)})
			case 2:
				l = append(l, own(lm.Entry{Name: name + "/", Type: tar.TypeDir, Mode: 0o755}))
			case 3:
				dir, base := path.Split(name)
				l = append(l, lm.Entry{Name: dir + ".wh." + base, Type: tar.TypeReg, Mode: 0o644})
			}
		}
		ret = append(ret, l)
	}
	return ret
}

// fastImage is an image whose digests are only computed on demand.
type fastImage struct {
	ociv1.Image
	layers []ociv1.Layer
	cfg    *ociv1.ConfigFile
	cfgErr error
	layErr error
}

func (i fastImage) full() ociv1.Image {
	img, err := mutate.AppendLayers(i.Image, i.layers...)
	h.Must(err)
	img, err = mutate.Config(img, i.cfg.Config)
	h.Must(err)
	return img
}
func (i fastImage) Layers() ([]ociv1.Layer, error)                  { return i.layers, i.layErr }
func (i fastImage) ConfigFile() (*ociv1.ConfigFile, error)          { return i.cfg, i.cfgErr }
func (i fastImage) RawConfigFile() ([]byte, error)                  { return i.full().RawConfigFile() }
func (i fastImage) ConfigName() (ociv1.Hash, error)                 { return i.full().ConfigName() }
func (i fastImage) Digest() (ociv1.Hash, error)                     { return i.full().Digest() }
func (i fastImage) Size() (int64, error)                            { return i.full().Size() }
func (i fastImage) Manifest() (*ociv1.Manifest, error)              { return i.full().Manifest() }
func (i fastImage) RawManifest() ([]byte, error)                    { return i.full().RawManifest() }
func (i fastImage) LayerByDigest(x ociv1.Hash) (ociv1.Layer, error) { return i.full().LayerByDigest(x) }
func (i fastImage) LayerByDiffID(x ociv1.Hash) (ociv1.Layer, error) { return i.full().LayerByDiffID(x) }

// pyPresent lists where there might be an interpreter.
func pyPresent(layers []lm.Layer) (ret []string) {
	for _, l := range layers {
		for _, e := range l {
			if strings.HasPrefix(path.Base(e.Name), "py") && e.Type != tar.TypeDir {
				ret = append(ret, e.Name)
			}
		}
	}
	return ret
}

type lookModel struct {
	fsys  *lm.FS
	wd    string
	path  []string
	vague bool // whether a directory of unspecified existence was seen
}

func (m *lookModel) stat(abs string) *lm.Node {
	n, err := m.fsys.Resolve(abs)
	if err != nil {
		return nil
	}
	if n.IsDir() && !n.HasExplicit() {
		m.vague = true
	}
	return n
}

func (m *lookModel) exec(abs string) bool {
	n := m.stat(abs)
	return n != nil && !n.IsDir() && n.Ino.E.Mode&0o111 != 0
}

func (m *lookModel) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = m.wd + "/" + p
	}
	return path.Clean("/" + p)
}

// look gives "" if there is no such program.
func (m *lookModel) look(file string) string {
	if strings.Contains(file, "/") {
		if a := m.abs(file); m.exec(a) {
			return a
		}
		return ""
	}
	for _, d := range m.path {
		if a := m.abs(d + "/" + file); d != "" && m.exec(a) {
			return a
		} else if a := m.abs(file); d == "" && m.exec(a) {
			return a
		}
	}
	return ""
}

// shebangs is (console, graphical), by looking beside what was found.
func shebangs(generic string, exists func(abs string) bool) (string, string) {
	dir, file := path.Split(generic)
	console, graphical := generic, generic
	if strings.HasPrefix(file, "pythonw") {
		if p := dir + "python" + file[7:]; exists(p) {
			console = p
		}
	} else if strings.HasPrefix(file, "python") {
		if p := dir + "pythonw" + file[6:]; exists(p) {
			graphical = p
		}
	}
	return console, graphical
}

func TestC29(t *testing.T) {
	p := h.Start(t, "C29", "the program is found and there is another candidate that is not executable, hidden or a link, or the file belongs to another user; images of at least two layers")
	p.Assume("PATH and the program have no .. and no trailing slashes; PATH has no components that are not in the image's root")

	p.Run("image", 15000, 120000, func(c *h.C) {
		layers := genPyImage(c.T)
		fsys, err := lm.Flatten(layers...)
		if err != nil {
			c.Label("left out")
			return
		}
		cfg := ociv1.Config{WorkingDir: h.Pick(c.T, "wd", "", "/", "/work", "work", "/usr/bin", "/nonexistent", "/work/")}
		m := &lookModel{fsys: fsys, wd: cfg.WorkingDir}
		for n := h.Int(c.T, "nenv", 0, 2); n > 0; n-- {
			cfg.Env = append(cfg.Env, h.Pick(c.T, "env", "HOME=/root", "XPATH=/opt/py/bin", "PATHEXT=.exe", "PYTHONPATH=/x", "A==b"))
		}
		if h.Weighted(c.T, "haspath", 1, 8) > 0 {
			if dirs := rapid.SliceOfN(rapid.SampledFrom([]string{"/bin", "/usr/bin", "/usr/local/bin", "/opt/py/bin", "/nonexistent", "bin", "", ".", "/usr//bin", "/work/./bin", "/usr/bin/python"}), 0, 5).Draw(c.T, "path"); len(dirs) > 0 {
				m.path = dirs
				if strings.Join(dirs, "") == "" && len(dirs) == 1 {
					m.path = nil
				}
			}
			cfg.Env = append(cfg.Env, "PATH="+strings.Join(m.path, ":"))
			if h.OneIn(c.T, "second", 4) {
				cfg.Env = append(cfg.Env, "PATH=/opt/py/bin:/usr/bin")
			}
		}
		img := fastImage{Image: empty.Image, layers: lm.OCIs(layers), cfg: &ociv1.ConfigFile{Config: cfg}}
		sys := &pyinspect.ImageFS{Image: img}
		desc := fmt.Sprintf("%s, wd %q, env %q", lm.Describe(layers), cfg.WorkingDir, cfg.Env)

		var file string
		switch h.Weighted(c.T, "prog", 6, 3, 2) {
		case 0:
			file = h.Pick(c.T, "file", pyNames...)
		case 1:
			file = "/" + h.Pick(c.T, "dir", binDirs...) + "/" + h.Pick(c.T, "file", pyNames...)
		case 2:
			file = h.Pick(c.T, "dir", "./", "bin/", "./bin/", "usr/bin/", "bin//") + h.Pick(c.T, "file", pyNames...)
		}
		if present := pyPresent(layers); len(present) > 0 && h.Weighted(c.T, "present", 1, 2) > 0 {
			file = h.Pick(c.T, "which", present...)
			switch h.Int(c.T, "how", 0, 3) {
			case 0:
				file = "/" + file
			case 1, 2:
				file = path.Base(file)
			}
		}
		// several users at once
		nonconc := !h.OneIn(c.T, "conc", 10)
		n := 1
		if !nonconc {
			n = 4
		}
		type res struct {
			found, console, graphical string
			err, serr                 error
		}
		results := make([]res, n)
		var wg sync.WaitGroup
		for i := range results {
			wg.Add(1)
			go func(r *res) {
				defer wg.Done()
				r.err = h.Try(func() (err error) { r.found, err = sys.LookPath(file); return })
				r.serr = h.Try(func() (err error) { r.console, r.graphical, err = pyinspect.Shebangs(sys, file); return })
			}(&results[i])
		}
		wg.Wait()
		for i := range results {
			if a, b := results[i], results[0]; a.found != b.found || a.console != b.console || a.graphical != b.graphical || (a.err == nil) != (b.err == nil) || (a.serr == nil) != (b.serr == nil) {
				c.Fatalf("%s: looking for %q at once gives %v and %v", desc, file, results[0], results[i])
			}
		}
		r := results[0]
		want := m.look(file)
		if !m.vague {
			var perr *fs.PathError
			switch {
			case want == "":
				if r.err == nil || !errors.As(r.err, &perr) || r.found != "" {
					c.Fatalf("%s: LookPath(%q) is %q, %v", desc, file, r.found, r.err)
				}
				if !strings.Contains(file, "/") && !errors.Is(r.err, dexec.ErrNotFound) {
					c.Fatalf("%s: LookPath(%q): %v does not say that it was not found", desc, file, r.err)
				}
				if r.serr == nil {
					c.Fatalf("%s: Shebangs(%q) is %q, %q", desc, file, r.console, r.graphical)
				}
			case r.err != nil || path.Clean(r.found) != want || !path.IsAbs(r.found):
				c.Fatalf("%s: LookPath(%q) is %q, %v, want %q", desc, file, r.found, r.err, want)
			default:
				wc, wg := shebangs(want, m.exec)
				if r.serr != nil || path.Clean(r.console) != wc || path.Clean(r.graphical) != wg {
					if !m.vague {
						c.Fatalf("%s: Shebangs(%q) is %q, %q, %v, want %q, %q", desc, file, r.console, r.graphical, r.serr, wc, wg)
					}
				}
			}
		} else {
			c.Label("vague")
		}
		// Stat
		spots := []string{"/", "/usr", "/bin", "/" + h.Pick(c.T, "sdir", binDirs...), want, "/" + h.Pick(c.T, "sdir2", binDirs...) + "/" + h.Pick(c.T, "sfile", pyNames...)}
		for _, abs := range spots {
			if abs == "" {
				continue
			}
			given := abs
			switch h.Int(c.T, "spell", 0, 4) {
			case 0:
				given = "/" + abs
			case 1:
				given = "/." + abs
			case 2:
				given = strings.ReplaceAll(abs, "/bin/", "//bin/./")
			}
			m.vague = false
			node := m.stat(abs)
			fi, err := sys.Stat(given)
			if m.vague {
				continue
			}
			if node == nil {
				if err == nil {
					c.Fatalf("%s: Stat(%q) is %v", desc, given, fi)
				}
				continue
			}
			if err != nil {
				if node.Ino.Implicit {
					continue
				}
				c.Fatalf("%s: Stat(%q): %v", desc, given, err)
			}
			if node.Ino.Implicit {
				if !fi.IsDir() {
					c.Fatalf("%s: Stat(%q) is not a directory", desc, given)
				}
				continue
			}
			e := node.Ino.E
			if fi.IsDir() != node.IsDir() || fi.Mode() != e.Header().FileInfo().Mode() || fi.UID() != e.UID || fi.GID() != e.GID || fi.UName() != e.Uname || fi.GName() != e.Gname {
				c.Fatalf("%s: Stat(%q) is %v %d:%d %q:%q, want %v", desc, given, fi.Mode(), fi.UID(), fi.GID(), fi.UName(), fi.GName(), e)
			}
		}
		for _, rel := range []string{"usr", "", ".", "bin/python"} {
			if fi, err := sys.Stat(rel); err == nil || !errors.Is(err, fs.ErrInvalid) {
				c.Fatalf("Stat(%q) is %v, %v", rel, fi, err)
			}
		}
		c.LabelIf(want != "", "found")
		c.LabelIf(r.console != r.graphical, "console and graphical")
		if len(layers) > 1 && want != "" {
			c.Nontrivial(desc + file)
		}
	})

	// a broken image is reported, each time
	p.Run("broken", 300, 3000, func(c *h.C) {
		l := lm.Layer{{Name: "usr/bin/python3", Type: tar.TypeReg, Mode: 0o755, Body: strings.Repeat("x", 600)}}
		bs := l.Tar()
		cut := h.Int(c.T, "cut", 1, 1100)
		img := fastImage{Image: empty.Image, cfg: &ociv1.ConfigFile{Config: ociv1.Config{Env: []string{"PATH=/usr/bin"}}}}
		what := h.Pick(c.T, "what", "layer", "layer", "config", "layers")
		switch what {
		case "layer":
			img.layers = []ociv1.Layer{lm.FromBytes(bs[:cut])}
		case "config":
			img.layers = []ociv1.Layer{l.OCI()}
			img.cfgErr = errors.New("injected")
			if rapid.Bool().Draw(c.T, "nilcfg") {
				img.cfg = nil
			}
		case "layers":
			img.layers = []ociv1.Layer{l.OCI()}
			img.layErr = errors.New("injected")
		}
		sys := &pyinspect.ImageFS{Image: img}
		for i := 0; i < 3; i++ {
			prog := h.Pick(c.T, "prog", "/usr/bin/python3", "python3", "bin/python3")
			if got, err := sys.LookPath(prog); err == nil {
				c.Fatalf("broken %s, image cut after %d bytes: found %q", what, cut, got)
			}
			if fi, err := sys.Stat("/usr/bin/python3"); err == nil {
				c.Fatalf("broken %s, image cut after %d bytes: %v", what, cut, fi)
			}
		}
		c.Nontrivial(fmt.Sprint(what, cut))
	})

	// the host's own
	p.Run("native", 1200, 15000, func(c *h.C) {
		d, done := h.TempDir()
		defer done()
		owners := map[string][4]interface{}{"root": {0, 0, "root", "root"}, "daemon": {1, 1, "daemon", "daemon"}, "nobody": {65534, 65534, "nobody", "nogroup"}, "mixed": {1, 0, "daemon", "root"}}
		model := map[string]string{} // path: "x" executable, "-" not
		type owned struct{ o [4]interface{} }
		own := map[string]owned{}
		var dirs []string
		for _, dn := range []string{"a", "b", "c d"} {
			dir := filepath.Join(d, dn)
			dirs = append(dirs, dir)
			h.Must(os.Mkdir(dir, 0o755))
			for n := h.Int(c.T, "n", 0, 6); n > 0; n-- {
				f := filepath.Join(dir, h.Pick(c.T, "py", pyNames...))
				if _, ok := model[f]; ok {
					continue
				}
				switch h.Weighted(c.T, "kind", 6, 2, 1) {
				case 0:
					mode := h.Pick(c.T, "mode", fs.FileMode(0o755), 0o755, 0o644, 0o711)
					h.Must(os.WriteFile(f, nil, mode))
					h.Must(os.Chmod(f, mode))
					o := owners[h.Pick(c.T, "owner", "root", "daemon", "nobody", "mixed")]
					if os.Getuid() == 0 {
						h.Must(os.Chown(f, o[0].(int), o[1].(int)))
						own[f] = owned{o}
					}
					model[f] = "-"
					if mode&0o111 != 0 {
						model[f] = "x"
					}
				case 1:
					tgt := h.Pick(c.T, "to", pyNames...)
					h.Must(os.Symlink(tgt, f))
					model[f] = ">" + filepath.Join(dir, tgt)
				case 2:
					h.Must(os.Mkdir(f, 0o755))
					model[f] = "d"
				}
			}
		}
		resolve := func(f string) string {
			for i := 0; i < 20 && strings.HasPrefix(model[f], ">"); i++ {
				f = model[f][1:]
			}
			return f
		}
		exists := func(f string) bool { return model[resolve(f)] == "x" }
		sys := pyinspect.NativeFS{}
		path_ := rapid.SliceOfN(rapid.SampledFrom(dirs), 1, 4).Draw(c.T, "path")
		old := os.Getenv("PATH")
		h.Must(os.Setenv("PATH", strings.Join(path_, ":")))
		defer func() { h.Must(os.Setenv("PATH", old)) }()
		file := h.Pick(c.T, "file", pyNames...)
		want := ""
		if rapid.Bool().Draw(c.T, "abs") {
			file = filepath.Join(h.Pick(c.T, "dir", dirs...), file)
			if exists(file) {
				want = file
			}
		} else {
			for _, dir := range path_ {
				if f := filepath.Join(dir, file); want == "" && exists(f) {
					want = f
				}
			}
		}
		desc := fmt.Sprintf("%v, PATH %v", model, path_)
		got, err := sys.LookPath(file)
		var perr *fs.PathError
		if want == "" && (err == nil || !errors.As(err, &perr)) || want != "" && (err != nil || got != want) {
			c.Fatalf("%s: LookPath(%q) is %q, %v, want %q", desc, file, got, err, want)
		}
		console, graphical, err := pyinspect.Shebangs(sys, file)
		if want == "" {
			if err == nil {
				c.Fatalf("%s: Shebangs(%q) is %q, %q", desc, file, console, graphical)
			}
		} else if wc, wg := shebangs(want, exists); err != nil || console != wc || graphical != wg {
			c.Fatalf("%s: Shebangs(%q) is %q, %q, %v, want %q, %q", desc, file, console, graphical, err, wc, wg)
		}
		for f := range model {
			r := resolve(f)
			o, ok := own[r]
			fi, err := sys.Stat(f)
			if model[r] == "" || strings.HasPrefix(model[r], ">") {
				if err == nil {
					c.Fatalf("%s: Stat(%q) is %v", desc, f, fi)
				}
				continue
			}
			if err != nil {
				c.Fatalf("%s: Stat(%q): %v", desc, f, err)
			}
			if ok && (fi.UID() != o.o[0] || fi.GID() != o.o[1] || fi.UName() != o.o[2] || fi.GName() != o.o[3]) {
				c.Fatalf("%s: Stat(%q) is %d:%d %s:%s, want %v", desc, f, fi.UID(), fi.GID(), fi.UName(), fi.GName(), o.o)
			}
			if fi.IsDir() != (model[r] == "d") || (!fi.IsDir() && (fi.Mode()&0o111 != 0) != (model[r] == "x")) {
				c.Fatalf("%s: Stat(%q) is %v", desc, f, fi.Mode())
			}
		}
		if fi, err := sys.Stat("usr"); !errors.Is(err, fs.ErrInvalid) {
			c.Fatalf("Stat of a relative path: %v, %v", fi, err)
		}
		if want != "" && len(model) > 2 {
			c.Nontrivial(desc + file)
		}
	})
}
