package whlchk

import (
	"context"
	"fmt"
	"path"
	"strings"
	"testing"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"pgregory.net/rapid"

	"verif.local/harness/h"
	"verif.local/harness/wh"
)

// attempt installs and reports whether the later steps ran.
func attempt(c *h.C, bs []byte, w *wh.Wheel, genPlat func() *stub) (installed, *stub, int) {
	s := genPlat()
	hooks := 0
	p := wh.GenPlatform(c.T)
	got := install(c, bs, w.Filename(), p, s, time.Time{}, time.Time{}, func(context.Context, time.Time, map[string]fsutil.FileReference, string) error {
		hooks++
		return nil
	})
	return got, s, hooks
}

func refused(c *h.C, what string, w *wh.Wheel, bs []byte) {
	got, s, hooks := attempt(c, bs, w, func() *stub { return &stub{} })
	if got.err == nil {
		c.Fatalf("a wheel was installed although %s: %s", what, w)
	}
	if s.calls != 0 || hooks != 0 {
		c.Fatalf("a wheel was refused (%v), but only after files of it were handed to the compiler (%d) or hooks (%d), although %s: %s", got.err, s.calls, hooks, what, w)
	}
}

func TestC12(t *testing.T) {
	p := h.Start(t, "C12", "the wheel has at least one member besides its metadata, or the damage is to the metadata itself")
	p.Run("damage", 3000, 60000, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		w := wh.Gen(c.T, plat, wh.Opts{Data: true, Dirs: true})
		rows := w.GoodRows()
		var files []int // members that RECORD has to cover
		for i, m := range w.Members {
			b := path.Base(m.Name)
			if !m.IsDir() && b != "RECORD.jws" && b != "RECORD.p7s" {
				files = append(files, i)
			}
		}
		i := files[h.Int(c.T, "victim", 0, len(files)-1)]
		for _, k := range files {
			if len(w.Members[k].Body) > 1<<20 && h.OneIn(c.T, "huge", 2) {
				i = k
			}
		}
		m := &w.Members[i]
		row := -1
		for j, r := range rows {
			if strings.HasPrefix(r, wh.Row(m.Name, "", "")[:len(wh.Row(m.Name, "", ""))-2]+",") {
				row = j
			}
		}
		if row < 0 {
			h.Infra("no row for %q in %q", m.Name, rows)
		}
		good := m.Body
		hash, size := wh.Hash(w.RecordAlgo, good), fmt.Sprint(len(good))
		w.RecordRows = rows
		var what string
		kind := h.Int(c.T, "kind", 0, 24)
		switch kind {
		case 0:
			pos := h.Int(c.T, "pos", 0, len(good))
			m.Body = good[:pos] + "!" + good[pos:]
			what = "a file has an added byte"
		case 1:
			if good == "" {
				m.Body = "x"
			} else {
				pos := h.Int(c.T, "pos", 0, len(good)-1)
				m.Body = good[:pos] + string([]byte{good[pos] ^ byte(1<<h.Int(c.T, "bit", 0, 7))}) + good[pos+1:]
			}
			what = "a file has a changed byte"
		case 2:
			if good == "" {
				m.Body = "x"
			} else {
				m.Body = good[:len(good)-1]
			}
			what = "a file is cut short"
		case 3: // only the size is wrong
			rows[row] = wh.Row(m.Name, hash, h.Pick(c.T, "size", fmt.Sprint(len(good)+1), fmt.Sprint(len(good)*10+1), "-1", "x"))
			what = "the size is wrong"
		case 4: // only the hash is wrong
			rows[row] = wh.Row(m.Name, wh.Hash(w.RecordAlgo, good+"x"), size)
			what = "the hash is wrong"
		case 5:
			rows[row] = wh.Row(m.Name, "", size)
			what = "the hash is missing"
		case 6:
			rows[row] = wh.Row(m.Name, hash, "")
			what = "the size is missing"
		case 7:
			rows[row] = wh.Row(m.Name, "", "")
			what = "hash and size are missing"
		case 8:
			w.RecordRows = append(append([]string{}, rows[:row]...), rows[row+1:]...)
			what = "a file is not in RECORD"
		case 9:
			pos := h.Int(c.T, "pos", 0, len(rows))
			extra := wh.Row(h.Pick(c.T, "ghost", "nothere.py", "pkg/nothere", "RECORD", "#nothere", "__pycache__/nothere.pyc", "not/here/", w.DistInfo()+"/nothere"), wh.Hash(w.RecordAlgo, "x"), "1")
			w.RecordRows = append(append(append([]string{}, rows[:pos]...), extra), rows[pos:]...)
			what = "RECORD has a file that is not there"
		case 10:
			algo := h.Pick(c.T, "weak", "md5", "sha1", "sha224")
			rows[row] = wh.Row(m.Name, wh.Hash(algo, good), size)
			what = "the hash algorithm is too weak"
		case 11:
			digest := strings.SplitN(hash, "=", 2)[1]
			rows[row] = wh.Row(m.Name, h.Pick(c.T, "algo", "sha999", "crc32", "", "SHA-256")+"="+digest, size)
			what = "the hash algorithm is unknown"
		case 12:
			other := h.Pick(c.T, "other", "sha256", "sha384", "sha512")
			if other == w.RecordAlgo {
				other = "sha512"
				if w.RecordAlgo == other {
					other = "sha256"
				}
			}
			rows[row] = wh.Row(m.Name, other+"="+strings.SplitN(hash, "=", 2)[1], size)
			what = "the hash is of another algorithm"
		case 13:
			rows[row] += ",extra"
			what = "a row of RECORD has four columns"
		case 14:
			rows[row] = strings.TrimSuffix(rows[row], ","+size)
			what = "a row of RECORD has two columns"
		case 15:
			w.Record = h.Pick(c.T, "norecord", "-", "RECORD", w.DistInfo()+"/RECORD.txt", "sub/"+w.DistInfo()+"/RECORD")
			what = "there is no RECORD"
		case 16: // a second member of the same name, of which one is as recorded
			dup := *m
			dup.Body = good + h.Pick(c.T, "dupbody", "#x", "y")
			if rapid.Bool().Draw(c.T, "unclean") {
				d := strings.Split(dup.Name, "/")
				d[0] = h.Pick(c.T, "spell", "./"+d[0], "x/../"+d[0], d[0]+"/.")
				if len(d) == 1 {
					d[0] = "./" + dup.Name
				}
				dup.Name = strings.Join(d, "/")
			}
			pos := h.Int(c.T, "pos", 0, len(w.Members))
			w.Members = append(w.Members[:pos:pos], append([]wh.Member{dup}, w.Members[pos:]...)...)
			w.RecordPos = -1
			what = "it has two files of one name"
		case 17: // a file that claims to be a directory
			x := wh.Member{Name: h.Pick(c.T, "n", "extra", "extra.py", w.DataDir()+"/scripts/extra"), Body: "#!python\n", Attrs: 0o040755<<16 | 0x10, Creator: 3 << 8, MTime: time.Unix(1e9, 0)}
			w.Members = append(w.Members, x)
			what = "a file with the attributes of a directory is not in RECORD"
		case 18: // a file that claims to be a directory, recorded wrongly
			m.Attrs, m.Creator, m.Body = 0o040755<<16|0x10, 3<<8, good+"x"
			what = "a file with the attributes of a directory does not match RECORD"
		case 19: // a symlink or device that is not recorded
			x := wh.Member{Name: "extra", Body: "/etc/passwd", Attrs: h.Pick(c.T, "fmt", uint32(0o120777), 0o010644, 0o020644) << 16, Creator: 3 << 8, MTime: time.Unix(1e9, 0)}
			w.Members = append(w.Members, x)
			what = "a special file is not in RECORD"
		case 20: // two rows for one file, of which one is wrong
			bad := wh.Row(m.Name, wh.Hash(w.RecordAlgo, good+"x"), size)
			if rapid.Bool().Draw(c.T, "first") {
				w.RecordRows = append([]string{bad}, rows...)
			} else {
				w.RecordRows = append(append([]string{}, rows...), bad)
			}
			what = "one of the two rows of a file is wrong"
		case 21:
			k := strings.Index(hash, "=") + 1
			rows[row] = wh.Row(m.Name, hash[:k+h.Int(c.T, "keep", 0, len(hash)-k-1)], size)
			what = "the hash is cut short"
		case 22: // (in all but the last character, which has unused bits)
			k := strings.Index(hash, "=") + 1
			k += h.Int(c.T, "char", 0, len(hash)-k-2)
			x := byte('A')
			if hash[k] == x {
				x = 'B'
			}
			rows[row] = wh.Row(m.Name, hash[:k]+string(x)+hash[k+1:], size)
			what = "one character of the hash is wrong"
		case 23: // the row is for another file that has the contents
			rows[row] = wh.Row(h.Pick(c.T, "othername", m.Name+"x", "x"+m.Name, strings.ToUpper(m.Name)+"_"), hash, size)
			what = "RECORD has the file under another name"
		case 24: // a file that one might overlook
			name := h.Pick(c.T, "overlooked", "__init__.py", "vnew/__init__.py", "py.typed", ".hidden", "#x", "x.pyc", "__pycache__/x.cpython-39.pyc", w.DistInfo()+"/INSTALLER", w.DistInfo()+"/REQUESTED",
				w.DistInfo()+"/direct_url.json", w.DistInfo()+"/entry_points.txt", w.DistInfo()+"/RECORD.asc", w.DistInfo()+"/sub/RECORD", "RECORD", w.DataDir()+"/scripts/vnew", w.DataDir()+"/data/vnew", w.DataDir()+"/purelib/vnew.pth")
			for _, m := range w.Members {
				if path.Clean(m.Name) == name {
					name += "2"
				}
			}
			w.Members = append(w.Members, wh.Member{Name: name, Body: h.Pick(c.T, "overlookedbody", "", "", "x"), MTime: time.Unix(1e9, 0), Attrs: h.Pick(c.T, "overlookedattrs", uint32(0o100644), 0, 0o100755) << 16, Creator: 3 << 8})
			what = "it has " + name + ", which is not in RECORD"
		}
		c.Label(fmt.Sprintf("damage:%02d", kind))
		c.Nontrivial(what + ": " + w.String())
		refused(c, what, w, w.Zip())
	})
	p.Run("malformed", 600, 6000, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		w := wh.Gen(c.T, plat, wh.Opts{Max: 3})
		di := w.DistInfo()
		setWheel := func(s string) {
			for i := range w.Members {
				if w.Members[i].Name == di+"/WHEEL" {
					w.Members[i].Body = s
				}
			}
		}
		var what string
		s := &stub{}
		switch h.Int(c.T, "kind", 0, 5) {
		case 0:
			setWheel("Wheel-Version: " + h.Pick(c.T, "v", "2.0", "2", "10.1", "3.0rc1") + "\nRoot-Is-Purelib: true\n")
			what = "its major Wheel-Version is newer"
		case 1:
			setWheel("Wheel-Version: " + h.Pick(c.T, "v", "", "one", "1.x") + "\nRoot-Is-Purelib: true\n")
			what = "its Wheel-Version makes no sense"
		case 2:
			for i := range w.Members {
				if w.Members[i].Name == di+"/WHEEL" {
					w.Members[i].Name = h.Pick(c.T, "n", di+"/WHEELS", "WHEEL", "sub/"+di+"/WHEEL")
				}
			}
			what = "it has no WHEEL"
		case 3:
			w.Members = append(w.Members, wh.Member{Name: h.Pick(c.T, "n", "other-1.0.dist-info/METADATA", "other-1.0.dist-info/WHEEL", "zz.dist-info/"), MTime: time.Unix(1e9, 0)})
			what = "it has two .dist-info directories"
		case 4:
			for i := range w.Members {
				w.Members[i].Name = strings.ReplaceAll(w.Members[i].Name, ".dist-info", h.Pick(c.T, "n", ".egg-info", ".dist_info", ".dist-info2"))
			}
			w.Record = "-"
			what = "it has no .dist-info directory"
		case 5:
			w.Members = append(w.Members, wh.Member{Name: w.DataDir() + "/" + h.Pick(c.T, "k", "include", "script", "Scripts", "stdlib", "purelib2", "") + "/x", Body: "x", MTime: time.Unix(1e9, 0)})
			what = "it has data of an unknown kind"
		}
		c.Label(what)
		c.Nontrivial(what + ": " + w.String())
		got := install(c, w.Zip(), w.Filename(), plat, s, time.Time{}, time.Time{}, nil)
		if got.err == nil {
			c.Fatalf("a wheel was installed although %s: %s", what, w)
		}
	})
	p.Run("bytes", 4000, 80000, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		w := wh.Gen(c.T, plat, wh.Opts{Data: true, Max: 4})
		bs := w.Zip()
		orig, _ := wh.ZipTimes(bs)
		var what []string
		for i := h.Int(c.T, "flips", 1, 2); i > 0; i-- {
			pos := h.Int(c.T, "pos", 0, len(bs)-1)
			if rapid.Bool().Draw(c.T, "late") { // the central directory
				pos = len(bs) - 1 - h.Int(c.T, "back", 0, len(bs)*2/3)
			}
			bit := h.Int(c.T, "bit", 0, 7)
			bs[pos] ^= 1 << bit
			what = append(what, fmt.Sprintf("%d.%d", pos, bit))
		}
		s := &stub{}
		hooks := 0
		got := install(c, bs, w.Filename(), plat, s, time.Time{}, time.Time{}, func(context.Context, time.Time, map[string]fsutil.FileReference, string) error {
			hooks++
			return nil
		})
		c.Nontrivial(fmt.Sprint(what, w))
		if got.err != nil {
			c.Label("bytes:refused")
			return
		}
		c.Label("bytes:harmless")
		// what is covered by RECORD has to be as it was
		want := w.Install(plat, orig, time.Time{})
		addPyc(want)
		for n, f := range want {
			if f.Dir {
				continue
			}
			g, ok := got.files[n]
			if !ok || g.Body != f.Body || g.Type != '0' {
				c.Fatalf("a damaged wheel (bits %v) was installed with a wrong %q: %s, want body %q; %s", what, n, show(g), f.Body, w)
			}
		}
		for n, g := range got.files {
			if g.Type != '5' && want[n] == nil {
				c.Fatalf("a damaged wheel (bits %v) was installed with an added %q; %s", what, n, w)
			}
		}
	})
	p.Run("intact", 1000, 15000, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		w := wh.Gen(c.T, plat, wh.Opts{Data: true, Dirs: true})
		rows := w.GoodRows()
		for i := len(rows) - 1; i > 0; i-- {
			j := h.Int(c.T, "swap", 0, i)
			rows[i], rows[j] = rows[j], rows[i]
		}
		eol := h.Pick(c.T, "eol", "", "\r")
		for i := range rows {
			if h.OneIn(c.T, "unclean", 6) && !strings.HasPrefix(rows[i], `"`) {
				rows[i] = "./" + rows[i]
			}
			if h.OneIn(c.T, "quote", 6) && !strings.HasPrefix(rows[i], `"`) {
				n, rest, _ := strings.Cut(rows[i], ",")
				rows[i] = `"` + n + `",` + rest
			}
			rows[i] += eol
		}
		if h.OneIn(c.T, "norow", 5) {
			for i, r := range rows {
				if strings.Contains(r, w.DistInfo()+"/RECORD,") || strings.Contains(r, w.DistInfo()+"/RECORD\",") {
					rows = append(rows[:i], rows[i+1:]...)
					c.Label("RECORD is not in itself")
					break
				}
			}
			rows = append(rows, wh.Row(w.DistInfo()+"/RECORD", "", "")+eol) // (the specification wants the row)
		}
		w.RecordRows = rows
		if len(w.Members) > 3 {
			c.Nontrivial(w.String())
		}
		if got := install(c, w.Zip(), w.Filename(), plat, &stub{}, time.Time{}, time.Time{}, nil); got.err != nil {
			c.Fatalf("an intact wheel was refused: %v; %s", got.err, w)
		}
	})
}
