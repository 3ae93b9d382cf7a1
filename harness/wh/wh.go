// Package wh makes Python wheels and models how they are to be installed (the "Binary distribution
// format" specification), written independently of the code under test.
package wh

import (
	"archive/zip"
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"fmt"
	"hash"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/python"
	"pgregory.net/rapid"

	"verif.local/harness/h"
)

// Member is one member of the zip file.
type Member struct {
	Name    string // ends in a slash for directories
	Body    string
	Attrs   uint32 // external attributes
	Creator uint16 // "version made by"
	MTime   time.Time
	Legacy  bool // only an MS-DOS time, no extended timestamp
	Deflate bool
}

func (m Member) IsDir() bool { return strings.HasSuffix(m.Name, "/") }

func (m Member) String() string {
	s := fmt.Sprintf("%q attrs=%08x by=%04x t=%d", m.Name, m.Attrs, m.Creator, m.MTime.Unix())
	if !m.IsDir() {
		b := m.Body
		if len(b) > 60 {
			b = fmt.Sprintf("%.60s... (%d bytes)", b, len(b))
		}
		s += fmt.Sprintf(" %q", b)
	}
	return s
}

// Wheel is a wheel under construction: everything but RECORD.
type Wheel struct {
	Dist, Version string
	Purelib       bool
	Members       []Member
	Record        string    // the name of the RECORD member
	RecordRows    []string  // if not nil, the lines of RECORD; otherwise they are made to match
	RecordAlgo    string    // for the made lines
	RecordTime    time.Time // of the RECORD member
	RecordPos     int       // where RECORD comes among the members
}

func (w *Wheel) DistInfo() string { return w.Dist + "-" + w.Version + ".dist-info" }
func (w *Wheel) DataDir() string  { return w.Dist + "-" + w.Version + ".data" }
func (w *Wheel) Filename() string { return w.Dist + "-" + w.Version + "-py3-none-any.whl" }

func (w *Wheel) String() string {
	var parts []string
	for _, m := range w.Members {
		parts = append(parts, m.String())
	}
	s := fmt.Sprintf("%s purelib=%v [%s]", w.Filename(), w.Purelib, strings.Join(parts, "; "))
	if w.RecordRows != nil {
		s += fmt.Sprintf(" RECORD=%q", w.RecordRows)
	}
	return s
}

var hashes = map[string]func() hash.Hash{
	"md5": md5.New, "sha1": sha1.New, "sha224": sha256.New224, "sha256": sha256.New, "sha384": sha512.New384, "sha512": sha512.New,
}

// Hash gives a RECORD hash.
func Hash(algo, body string) string {
	x := hashes[algo]()
	x.Write([]byte(body))
	return algo + "=" + base64.RawURLEncoding.EncodeToString(x.Sum(nil))
}

func csvField(s string) string {
	if strings.ContainsAny(s, ",\"\r\n") || strings.HasPrefix(s, " ") {
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

// Row is one line of RECORD.
func Row(name, hash, size string) string { return csvField(name) + "," + hash + "," + size }

// GoodRows are the lines of a RECORD that matches.
func (w *Wheel) GoodRows() []string {
	algo := w.RecordAlgo
	if algo == "" {
		algo = "sha256"
	}
	var rows []string
	for _, m := range w.Members {
		base := path.Base(m.Name)
		if m.IsDir() || path.Dir(m.Name) == w.DistInfo() && (base == "RECORD.jws" || base == "RECORD.p7s") {
			continue
		}
		rows = append(rows, Row(m.Name, Hash(algo, m.Body), fmt.Sprint(len(m.Body))))
	}
	return append(rows, Row(w.DistInfo()+"/RECORD", "", ""))
}

// AllMembers includes RECORD.
func (w *Wheel) AllMembers() []Member {
	rows := w.RecordRows
	if rows == nil {
		rows = w.GoodRows()
	}
	name := w.Record
	if name == "" {
		name = w.DistInfo() + "/RECORD"
	}
	rec := Member{Name: name, Body: strings.Join(rows, "\n") + "\n", Attrs: 0o100644 << 16, Creator: 3 << 8, MTime: w.RecordTime}
	if name == "-" {
		return w.Members
	}
	pos := w.RecordPos
	if pos < 0 || pos > len(w.Members) {
		pos = len(w.Members)
	}
	ret := append([]Member{}, w.Members[:pos]...)
	ret = append(ret, rec)
	return append(ret, w.Members[pos:]...)
}

// Zip is the file.
func (w *Wheel) Zip() []byte {
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	for _, m := range w.AllMembers() {
		hdr := &zip.FileHeader{Name: m.Name, CreatorVersion: m.Creator, ExternalAttrs: m.Attrs}
		if m.Deflate && !m.IsDir() {
			hdr.Method = zip.Deflate
		}
		if m.Legacy {
			hdr.SetModTime(m.MTime) //nolint:staticcheck // wants the MS-DOS fields
			hdr.Modified = time.Time{}
		} else {
			hdr.Modified = m.MTime
		}
		fw, err := z.CreateHeader(hdr)
		h.Must(err)
		if !m.IsDir() {
			_, err = fw.Write([]byte(m.Body))
			h.Must(err)
		}
	}
	h.Must(z.Close())
	return buf.Bytes()
}

// Write writes the wheel to a directory.
func (w *Wheel) Write(dir string) string {
	p := filepath.Join(dir, w.Filename())
	h.Must(os.WriteFile(p, w.Zip(), 0o644))
	return p
}

// ZipTimes gives the time of each member (as the zip file can represent it), and the last one.
func ZipTimes(bs []byte) (map[string]time.Time, time.Time) {
	r, err := zip.NewReader(bytes.NewReader(bs), int64(len(bs)))
	h.Must(err)
	ret := map[string]time.Time{}
	var last time.Time
	for _, f := range r.File {
		ret[f.Name] = f.Modified
		if f.Modified.After(last) {
			last = f.Modified
		}
	}
	return ret, last
}

// ---- the model ----

// File is an installed file.
type File struct {
	Dir   bool
	Mode  int64
	Body  string
	MTime time.Time // before clamping
	From  string    // zip member
	Kind  string    // "root", or the kind of data
}

// Scheme gives the directories without leading slash.
func Scheme(p python.Platform, kind string) string {
	s := map[string]string{"purelib": p.Scheme.PureLib, "platlib": p.Scheme.PlatLib, "headers": p.Scheme.Headers,
		"scripts": p.Scheme.Scripts, "data": p.Scheme.Data}[kind]
	return strings.TrimPrefix(path.Clean("/"+s), "/")
}

// Root is the directory that the archive's top level goes to.
func (w *Wheel) Root(p python.Platform) string {
	if w.Purelib {
		return Scheme(p, "purelib")
	}
	return Scheme(p, "platlib")
}

// Shebang says what becomes of a script's text.
func Shebang(p python.Platform, body string) (string, bool) {
	console, gui := p.ConsoleShebang, p.GraphicalShebang
	if console == "" {
		console = gui
	}
	if gui == "" {
		gui = console
	}
	switch {
	case strings.HasPrefix(body, "#!pythonw"):
		return "#!" + gui + strings.TrimPrefix(body, "#!pythonw"), true
	case strings.HasPrefix(body, "#!python"):
		return "#!" + console + strings.TrimPrefix(body, "#!python"), true
	}
	return body, false
}

// Install is the model of unpacking and spreading.  Members must not collide.
func (w *Wheel) Install(p python.Platform, zipTimes map[string]time.Time, minTime time.Time) map[string]*File {
	ret := map[string]*File{}
	root := w.Root(p)
	for _, m := range w.AllMembers() {
		name := path.Clean(m.Name)
		if name == w.DistInfo()+"/RECORD" || name == w.DistInfo()+"/RECORD.jws" || name == w.DistInfo()+"/RECORD.p7s" || name == w.DataDir() {
			continue
		}
		f := &File{Dir: m.IsDir(), Body: m.Body, From: m.Name, Kind: "root", MTime: zipTimes[m.Name]}
		if !minTime.IsZero() {
			f.MTime = minTime
		}
		dst := path.Join(root, name)
		if strings.HasPrefix(name, w.DataDir()+"/") {
			rest := strings.TrimPrefix(name, w.DataDir()+"/")
			kind, sub, _ := strings.Cut(rest, "/")
			f.Kind = kind
			dst = path.Join(Scheme(p, kind), sub)
		}
		unix := m.Attrs >> 16
		switch {
		case f.Dir:
			f.Mode = 0o755
		case unix&0o170000 == 0o100000 && unix&0o111 != 0:
			f.Mode = 0o755
		default:
			f.Mode = 0o644
		}
		if f.Kind == "scripts" && !f.Dir {
			var changed bool
			if f.Body, changed = Shebang(p, f.Body); changed {
				f.Mode |= 0o111
			}
		}
		if dst == "." || dst == "" {
			continue
		}
		ret[dst] = f
	}
	return ret
}

// Keys sorts.
func Keys[V any](m map[string]V) []string {
	ret := make([]string, 0, len(m))
	for k := range m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}

// ---- generators ----

var pyBodies = []string{"", "x = 1\n", "import sys\n\ndef main():\n    return 0\n", "\"\"\"doc\"\"\"\n# comment\n", "class A:\n    def f(self):\n        return 'é'\n"}

// GenPlatform makes a platform (without a compiler).
func GenPlatform(t *rapid.T) python.Platform {
	py := h.Pick(t, "py", "3.9", "3.12")
	prefix := h.Pick(t, "prefix", "/usr", "/usr/local", "/opt/venv")
	p := python.Platform{
		ConsoleShebang:   prefix + "/bin/python" + py,
		GraphicalShebang: prefix + "/bin/python" + py,
		Scheme: python.Scheme{
			PureLib: prefix + "/lib/python" + py + "/site-packages",
			PlatLib: prefix + "/lib64/python" + py + "/site-packages",
			Headers: prefix + "/include/python" + py + "/cpython",
			Scripts: prefix + "/bin",
			Data:    prefix,
		},
		UID: h.Pick(t, "puid", 0, 1000, 3000000), GID: h.Pick(t, "pgid", 0, 1001, 2097152),
		UName: h.Pick(t, "pun", "root", "bob", ""), GName: h.Pick(t, "pgn", "root", "staff", ""),
	}
	if rapid.Bool().Draw(t, "onelib") {
		p.Scheme.PlatLib = p.Scheme.PureLib
	}
	switch h.Weighted(t, "shebangs", 3, 2, 1, 1) {
	case 1:
		p.GraphicalShebang = prefix + "/bin/pythonw" + py
	case 2:
		p.GraphicalShebang = ""
	case 3:
		p.ConsoleShebang = ""
	}
	if h.OneIn(t, "odd", 4) {
		switch h.Int(t, "oddity", 0, 5) {
		case 0:
			p.Scheme.Headers += "/"
		case 1:
			p.Scheme.PureLib = strings.Replace(p.Scheme.PureLib, "/lib/", "/lib/../lib/./", 1)
		case 2:
			p.Scheme.Data = "/"
		case 3:
			p.Scheme.Scripts = "/" + p.Scheme.Scripts
		case 4: // above the root
			p.Scheme.Scripts = "/../.." + p.Scheme.Scripts
		case 5:
			p.Scheme.PlatLib = "/../x/.." + p.Scheme.PlatLib
		}
	}
	return p
}

var comps = []string{"pkg", "mod", "sub", "a", "b", "data.txt", "x y", "é", "a-b", "__init__", "a.b", "a,b", "..x", "...", "a..", "#a", "q\"q", "RECORD", "py.typed", "x.DIST-INFO", " a"}

// GenTime makes a zip time.
func GenTime(t *rapid.T) time.Time {
	return time.Unix(int64(h.Pick(t, "mtime", 315532800, 1000000000, 1234567891, 1600000001, 1600000002, 2147483648, 4102444800))+int64(h.Pick(t, "dt", 0, 0, 1, 2)), 0).UTC()
}

// GenAttrs makes external attributes and a creator.
func GenAttrs(t *rapid.T, dir bool) (uint32, uint16) {
	var unix uint32
	if dir {
		unix = h.Pick(t, "dmode", uint32(0o040755), 0o040700, 0, 0o755)
	} else {
		unix = h.Pick(t, "fmode", uint32(0o100644), 0o100755, 0o100600, 0, 0o755, 0o644, 0o100711, 0o100001, 0o100777, 0o106755)
	}
	dos := uint32(h.Pick(t, "dos", 0, 0, 0x20, 0x01))
	if dir && rapid.Bool().Draw(t, "dosdir") {
		dos |= 0x10
	}
	return unix<<16 | dos, h.Pick(t, "creator", uint16(3<<8|20), 3<<8, 0, 20)
}

// Opts says what to generate.
type Opts struct {
	Data    bool // members below .data
	Dirs    bool // explicit directories
	Max     int
	Extra   []Member
	NoTimes bool
	Pyc     bool // .pyc files of the wheel's own
}

// Gen makes a well-formed wheel whose members do not collide when installed on the platform.
func Gen(t *rapid.T, p python.Platform, o Opts) *Wheel {
	w := &Wheel{Dist: h.Pick(t, "dist", "foo", "my_pkg", "Foo.Bar"), Version: h.Pick(t, "version", "1.0", "1.0.post1", "2!1.0+local.1"), Purelib: rapid.Bool().Draw(t, "purelib")}
	w.RecordAlgo = h.Pick(t, "algo", "sha256", "sha384", "sha512")
	w.RecordTime = GenTime(t)
	used := map[string]bool{}  // installed paths of files
	asDir := map[string]bool{} // installed paths that must be directories
	names := map[string]bool{} // member names
	place := func(name string) string {
		if strings.HasPrefix(name, w.DataDir()+"/") {
			kind, sub, _ := strings.Cut(strings.TrimPrefix(name, w.DataDir()+"/"), "/")
			return path.Join(Scheme(p, kind), sub)
		}
		return path.Join(w.Root(p), path.Clean(name))
	}
	add := func(m Member) bool {
		dst := place(path.Clean(m.Name))
		if names[path.Clean(m.Name)] || used[dst] || !m.IsDir() && asDir[dst] {
			return false
		}
		for d := path.Dir(dst); d != "." && d != "/"; d = path.Dir(d) {
			if used[d] {
				return false
			}
		}
		if m.IsDir() {
			if asDir["+"+dst] {
				return false // another member is that directory
			}
			asDir["+"+dst] = true
			asDir[dst] = true
		} else {
			used[dst] = true
		}
		for d := path.Dir(dst); d != "." && d != "/"; d = path.Dir(d) {
			asDir[d] = true
		}
		names[path.Clean(m.Name)] = true
		w.Members = append(w.Members, m)
		return true
	}
	mk := func(name, body string) Member {
		m := Member{Name: name, Body: body, MTime: GenTime(t), Deflate: rapid.Bool().Draw(t, "deflate"), Legacy: h.OneIn(t, "legacy", 4)}
		m.Attrs, m.Creator = GenAttrs(t, strings.HasSuffix(name, "/"))
		return m
	}
	di := w.DistInfo()
	used[path.Join(w.Root(p), di, "RECORD")] = true
	purelib := "true"
	if !w.Purelib {
		purelib = h.Pick(t, "notpure", "false", "false", "False", "no", "trueish", "untrue")
	}
	for _, x := range []string{"INSTALLER", "direct_url.json", "REQUESTED", "RECORD.jws", "RECORD.p7s"} {
		asDir["no:"+x] = true
	}
	add(Member{Name: di + "/WHEEL", MTime: GenTime(t), Attrs: 0o100644 << 16, Creator: 3 << 8,
		Body: fmt.Sprintf("Wheel-Version: %s\nGenerator: test\n%s %s\nTag: py3-none-any\n", h.Pick(t, "wv", "1.0", "1.0", "1.9", "0.1"),
			h.Pick(t, "field", "Root-Is-Purelib:", "Root-Is-Purelib:", "Root-Is-Purelib:", "root-is-purelib:", "Root-Is-Purelib:  "), purelib)})
	add(Member{Name: di + "/METADATA", MTime: GenTime(t), Attrs: 0o100644 << 16, Creator: 3 << 8,
		Body: "Metadata-Version: 2.1\nName: " + w.Dist + "\nVersion: " + w.Version + "\n"})
	for _, m := range o.Extra {
		add(m)
	}
	if h.OneIn(t, "sigs", 5) {
		add(mk(di+"/RECORD.jws", "sig"))
		add(mk(di+"/RECORD.p7s", "sig"))
	}
	if h.OneIn(t, "likerecord", 4) { // names like those that installing treats specially
		add(mk(di+"/"+h.Pick(t, "likename", "RECORD.txt", "RECORD.asc", "RECORDS", "RECORD.jws.bak", "WHEEL.bak", "entry_points.txt~", "entry_points", "sub/RECORD", "sub/RECORD.jws", "sub/INSTALLER", "METADATA.json", "record", "Record", "wheel", "Wheel", "metadata"), "special\n"))
		if rapid.Bool().Draw(t, "likefirst") {
			last := len(w.Members) - 1
			w.Members[0], w.Members[last] = w.Members[last], w.Members[0]
		}
	}
	if h.OneIn(t, "licenses", 4) {
		add(mk(di+"/licenses/LICENSE", "MIT"))
	}
	max := o.Max
	if max == 0 {
		max = 8
	}
	min, wide := 0, h.OneIn(t, "wide", 60)
	if wide {
		min, max = 15, 15+6*max
	}
	h.Repeat(t, "members", min, max, func(t *rapid.T) {
		var parts []string
		depth := h.Int(t, "depth", 1, 3)
		if h.OneIn(t, "deep", 40) {
			depth += h.Int(t, "deeper", 1, 9)
		}
		for i := depth; i > 0; i-- {
			parts = append(parts, h.Pick(t, "comp", comps...))
			if wide {
				parts[len(parts)-1] += fmt.Sprint(h.Int(t, "num", 0, 30))
			}
			if h.OneIn(t, "pydir", 10) {
				parts[len(parts)-1] += ".py" // of directories too
			}
		}
		if h.OneIn(t, "long", 40) { // around the limits of tar's name fields
			parts[len(parts)-1] = h.Pick(t, "longname", strings.Repeat("n", h.Pick(t, "longlen", 30, 50, 99, 100, 101, 120)), strings.Repeat("ö", h.Pick(t, "longö", 30, 50, 70)))
		}
		if h.OneIn(t, "lookalike", 12) {
			parts[0] = h.Pick(t, "like", w.DataDir()+"base", w.DataDir()+".d", di+"x", "pkg/"+w.DataDir()+"/scripts", "pkg/"+di, w.Dist+".libs")
		}
		name := strings.Join(parts, "/")
		if o.Data && h.Weighted(t, "isdata", 1, 1) == 1 {
			name = w.DataDir() + "/" + h.Pick(t, "kind", "purelib", "platlib", "headers", "scripts", "scripts", "data") + "/" + name
			if o.Dirs && h.OneIn(t, "datadir", 6) {
				name = w.DataDir() + "/" + h.Pick(t, "kind", "", "purelib", "platlib", "headers", "scripts", "data")
				name = strings.TrimSuffix(name, "/") + "/"
			}
		}
		if o.Dirs && !strings.HasSuffix(name, "/") && h.OneIn(t, "isdir", 5) {
			name += "/"
		}
		if strings.HasSuffix(name, "/") {
			add(mk(name, ""))
			return
		}
		body := ""
		if h.Weighted(t, "ext", 3, 2) == 0 {
			name += ".py"
			body = h.Pick(t, "pybody", pyBodies...)
		} else {
			body = h.Pick(t, "body", "", "text\n", "\x00\xff binary", strings.Repeat("long ", 700))
			if h.OneIn(t, "huge", 20) {
				body = strings.Repeat("0123456789abcdef", h.Pick(t, "blocks", 2048, 4096, 9000, 2048, 4096, 9000, 70000)) + "end"
			}
			if h.OneIn(t, "pyc", 6) {
				name += h.Pick(t, "ext2", ".pyi", ".so", ".pyx", ".pyc.txt", ".py.txt", ".PY", ".pyw", ".PYC")
				if o.Pyc && rapid.Bool().Draw(t, "ownpyc") {
					name += ".pyc"
				}
			}
		}
		if strings.HasPrefix(name, w.DataDir()+"/scripts/") {
			body = h.Pick(t, "script", "#!python\nprint(1)\n", "#!pythonw\nprint(1)\n", "#!python", "#!pythonw", "#!/bin/sh\nexit 0\n", "#! python\n", "#!pytho", "", "x", "#!python -E\nprint(1)\n", "\n#!python\n", "#!PYTHON\n", "\x7fELF\x00") +
				h.Pick(t, "tail", "", "", "more\n", strings.Repeat("# pad\n", 900))
		}
		add(mk(name, body))
	})
	w.RecordPos = h.Pick(t, "recpos", -1, 0, 1)
	return w
}
