package squashchk

import (
	"archive/tar"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/datawire/ocibuild/pkg/squash"
	"pgregory.net/rapid"

	"verif.local/harness/h"
	"verif.local/harness/lm"
)

func modeOf(e lm.Entry) fs.FileMode { return e.Header().FileInfo().Mode() }

// childlessImplicit: whether such directories exist is unspecified.
func unspecified(n *lm.Node) bool { return n.IsDir() && !n.HasExplicit() }

// checkInfo compares a FileInfo with the model.
func checkInfo(what string, fi fs.FileInfo, name string, n *lm.Node) error {
	e := n.Ino.E
	if fi.Name() != name {
		return fmt.Errorf("%s: Name()=%q, want %q", what, fi.Name(), name)
	}
	if fi.IsDir() != n.IsDir() {
		return fmt.Errorf("%s: IsDir()=%v, want %v", what, fi.IsDir(), n.IsDir())
	}
	if n.Ino.Implicit {
		return nil
	}
	if fi.Mode() != modeOf(e) {
		return fmt.Errorf("%s: Mode()=%v, want %v", what, fi.Mode(), modeOf(e))
	}
	if e.Type == tar.TypeReg && fi.Size() != int64(len(e.Body)) {
		return fmt.Errorf("%s: Size()=%d, want %d", what, fi.Size(), len(e.Body))
	}
	if !fi.ModTime().Equal(e.MTime) && !(e.MTime.IsZero() && fi.ModTime().Unix() == 0) {
		return fmt.Errorf("%s: ModTime()=%v, want %v", what, fi.ModTime(), e.MTime)
	}
	return nil
}

func readAllBy(f io.Reader, size int) (string, error) {
	var ret []byte
	buf := make([]byte, size)
	for i := 0; ; i++ {
		n, err := f.Read(buf)
		ret = append(ret, buf[:n]...)
		if errors.Is(err, io.EOF) {
			return string(ret), nil
		}
		if err != nil {
			return string(ret), err
		}
		if i > 1<<20 {
			return string(ret), errors.New("Read never reaches EOF")
		}
	}
}

// checkPath compares everything that can be seen through one path.
func checkPath(fsys fs.FS, model *lm.FS, p string, omit bool, bufSize int, pages []int) error {
	tgt, merr := model.Resolve(p)
	if merr == nil && unspecified(tgt) && p != "." {
		return nil
	}
	f, err := fsys.Open(p)
	if merr != nil {
		if err == nil {
			return fmt.Errorf("Open(%q) succeeds, want %v", p, merr)
		}
		if errors.Is(merr, lm.ErrNotExist) && !errors.Is(err, fs.ErrNotExist) {
			return fmt.Errorf("Open(%q): %v does not say that it does not exist", p, err)
		}
		var perr *fs.PathError
		if !errors.As(err, &perr) {
			return fmt.Errorf("Open(%q): %T is not a *fs.PathError", p, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("Open(%q): %v", p, err)
	}
	fi, err := f.Stat()
	switch {
	case err == nil:
		if err := checkInfo("Stat("+p+")", fi, path.Base(p), tgt); err != nil {
			return err
		}
	case !tgt.Ino.Implicit:
		return fmt.Errorf("Stat(%q): %v", p, err)
	}
	if !tgt.IsDir() {
		if tgt.Ino.E.Type == tar.TypeReg {
			if len(tgt.Ino.E.Body) > 1<<18 && bufSize < 1<<10 {
				bufSize = 1<<16 + 1
			}
			got, err := readAllBy(f, bufSize)
			switch {
			case omit && len(tgt.Ino.E.Body) > 0:
				if err == nil {
					return fmt.Errorf("Read(%q) with content omitted: %q and no error", p, got)
				}
			case err != nil:
				return fmt.Errorf("Read(%q): %v", p, err)
			case got != tgt.Ino.E.Body:
				return fmt.Errorf("Read(%q)=%q, want %q", p, got, tgt.Ino.E.Body)
			}
		}
		if d, ok := f.(fs.ReadDirFile); ok {
			if ents, err := d.ReadDir(-1); err == nil {
				return fmt.Errorf("ReadDir(%q) of a non-directory: %v", p, ents)
			}
		}
	} else {
		if n, err := f.Read(make([]byte, 4)); err == nil || errors.Is(err, io.EOF) {
			return fmt.Errorf("Read(%q) of a directory: %d, %v", p, n, err)
		}
		d, ok := f.(fs.ReadDirFile)
		if !ok {
			return fmt.Errorf("Open(%q): %T has no ReadDir", p, f)
		}
		var got []fs.DirEntry
		for i := 0; ; i++ {
			n := -1
			if i < len(pages) {
				n = pages[i]
			}
			ents, err := d.ReadDir(n)
			got = append(got, ents...)
			if n > 0 {
				if len(ents) > n {
					return fmt.Errorf("ReadDir(%q,%d): %d entries", p, n, len(ents))
				}
				if len(ents) == 0 && !errors.Is(err, io.EOF) {
					return fmt.Errorf("ReadDir(%q,%d): no entries and error %v, want EOF", p, n, err)
				}
				if len(ents) > 0 && err != nil {
					return fmt.Errorf("ReadDir(%q,%d): %v", p, n, err)
				}
			} else {
				if err != nil {
					return fmt.Errorf("ReadDir(%q,%d): %v", p, n, err)
				}
				break
			}
		}
		var names []string
		for _, ent := range got {
			c := tgt.Children[ent.Name()]
			if c != nil && unspecified(c) {
				continue
			}
			if c == nil {
				if ent.IsDir() {
					// might be an implicit directory without contents
					if sub, err := fs.ReadDir(fsys, path.Join(p, ent.Name())); err == nil && len(sub) == 0 {
						if _, err := ent.Info(); err != nil {
							continue
						}
					}
				}
				return fmt.Errorf("ReadDir(%q): extra entry %q", p, ent.Name())
			}
			names = append(names, ent.Name())
			if ent.IsDir() != c.IsDir() {
				return fmt.Errorf("ReadDir(%q): %q IsDir()=%v", p, ent.Name(), ent.IsDir())
			}
			if ent.IsDir() && ent.Type() != fs.ModeDir {
				return fmt.Errorf("ReadDir(%q): %q is a directory and has Type()=%v", p, ent.Name(), ent.Type())
			}
			if !c.Ino.Implicit {
				if ent.Type() != modeOf(c.Ino.E).Type() {
					return fmt.Errorf("ReadDir(%q): %q Type()=%v, want %v", p, ent.Name(), ent.Type(), modeOf(c.Ino.E).Type())
				}
				fi, err := ent.Info()
				if err != nil {
					return fmt.Errorf("ReadDir(%q): %q Info(): %v", p, ent.Name(), err)
				}
				if err := checkInfo("Info("+p+"/"+ent.Name()+")", fi, ent.Name(), c); err != nil {
					return err
				}
			}
		}
		if want := tgt.Names(); strings.Join(want, "\n") != strings.Join(names, "\n") {
			return fmt.Errorf("ReadDir(%q)=%q, want %q", p, names, want)
		}
	}
	if err := f.Close(); err != nil {
		return fmt.Errorf("Close(%q): %v", p, err)
	}
	if !tgt.IsDir() && !omit {
		if n, err := f.Read(make([]byte, 1)); err == nil || errors.Is(err, io.EOF) {
			return fmt.Errorf("Read(%q) after Close: %d, %v", p, n, err)
		}
	}
	if d, ok := f.(fs.ReadDirFile); ok {
		if _, err := d.ReadDir(-1); err == nil {
			return fmt.Errorf("ReadDir(%q) after Close succeeds", p)
		}
	}
	return nil
}

func allPaths(model *lm.FS, extra []string) []string {
	set := map[string]bool{".": true}
	for _, p := range model.Paths() {
		set[p] = true
	}
	for _, p := range extra {
		set[p] = true
	}
	ret := sortedKeys(set)
	sort.Strings(ret)
	return ret
}

func TestC03(t *testing.T) {
	lm.UTF8Only, lm.Huge = true, 150
	defer func() { lm.UTF8Only, lm.Huge = false, 0 }()
	p := h.Start(t, "C03", "the loaded filesystem has at least two layers or a whiteout or a link, and at least three visible paths")
	p.Assume("names are valid UTF-8, as io/fs demands")
	load := func(c *h.C) (fs.FS, *lm.FS, []lm.Layer, []string, bool, bool) {
		ls, st := lm.GenStack(c.T, lm.StackOpts{Whiteouts: true, Symlinks: true, Hardlinks: true, MaxLayers: 4, MaxFiles: 8})
		model, err := lm.Flatten(ls...)
		if err != nil {
			c.Label("rejected-by-model")
			return nil, nil, nil, nil, false, false
		}
		omit := h.OneIn(c.T, "omit", 4)
		c.Journal(lm.Describe(ls))
		fsys, err := squash.Load(lm.OCIs(ls), omit)
		if err != nil {
			c.Fatalf("Load failed: %v\nlayers: %s", err, lm.Describe(ls))
		}
		var extra []string
		h.Repeat(c.T, "extra", 0, 6, func(t *rapid.T) { extra = append(extra, lm.GenPath(t, 4)) })
		// paths below symlinks
		for _, q := range model.Paths() {
			n, err := model.Lookup(q)
			if err != nil || !n.IsLink() {
				continue
			}
			extra = append(extra, q+"/a", q+"/b/c")
			if tgt, err := model.Resolve(q); err == nil && tgt.IsDir() {
				c.Label("symlink-to-dir")
				for _, k := range tgt.Names() {
					extra = append(extra, q+"/"+k)
				}
			}
		}
		paths := allPaths(model, extra)
		nt := (len(ls) >= 2 || st["whiteout"]+st["opaque"]+st["symlink"]+st["hardlink"] > 0) && len(model.Paths()) >= 3
		c.LabelIf(st["hardlink"] > 0, "hardlink")
		c.LabelIf(omit, "omit")
		return fsys, model, ls, paths, omit, nt
	}
	p.Run("view", 11000, 100000, func(c *h.C) {
		fsys, model, ls, paths, omit, nt := load(c)
		if fsys == nil {
			return
		}
		buf := h.Pick(c.T, "buf", 1, 3, 7, 512, 4096)
		var pages []int
		h.Repeat(c.T, "pages", 0, 4, func(t *rapid.T) { pages = append(pages, h.Pick(t, "page", 1, 2, 3, 0, -1)) })
		for i, n := range pages {
			if n <= 0 {
				pages = pages[:i+1]
				break
			}
		}
		for _, q := range paths {
			if err := checkPath(fsys, model, q, omit, buf, pages); err != nil {
				c.Fatalf("%v\nlayers: %s", err, lm.Describe(ls))
			}
		}
		for _, bad := range []string{"", "/", "/a", "a/", "../a", "a/../b", "./a", "a//b", ".."} {
			if _, err := fsys.Open(bad); !errors.Is(err, fs.ErrInvalid) {
				c.Fatalf("Open(%q): %v, want an invalid-argument error", bad, err)
			}
		}
		// two handles of one file do not share a position
		for _, q := range paths {
			n, err := model.Resolve(q)
			if err != nil || n.IsDir() || n.Ino.E.Type != tar.TypeReg || len(n.Ino.E.Body) < 4 || omit {
				continue
			}
			f1, err1 := fsys.Open(q)
			f2, err2 := fsys.Open(q)
			if err1 != nil || err2 != nil {
				c.Fatalf("Open(%q) twice: %v, %v", q, err1, err2)
			}
			b := make([]byte, 2)
			_, _ = f1.Read(b)
			_ = f1.Close()
			size := 3
			if len(n.Ino.E.Body) > 1<<18 {
				size = 1<<15 + 3
			}
			if got, err := readAllBy(f2, size); err != nil || got != n.Ino.E.Body {
				c.Fatalf("Open(%q) twice: the second handle reads %q, %v", q, got, err)
			}
			break
		}
		if nt {
			c.Nontrivial(lm.Describe(ls))
		}
	})
	p.Run("concurrent", 900, 10000, func(c *h.C) {
		fsys, model, ls, paths, omit, nt := load(c)
		if fsys == nil {
			return
		}
		var wg sync.WaitGroup
		errs := make([]error, 4)
		models := []*lm.FS{model}
		for i := 1; i < 4; i++ { // the model's counters are not meant to be shared
			m, err := lm.Flatten(ls...)
			h.Must(err)
			models = append(models, m)
		}
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := range paths {
					q := paths[(k*(g+1)+g)%len(paths)]
					if err := checkPath(fsys, models[g], q, omit, 16, []int{1}); err != nil {
						errs[g] = err
						return
					}
				}
			}()
		}
		// some handles are shared: together, the readers get each entry and each byte once
		var shMu sync.Mutex
		type shared struct {
			q     string
			f     fs.File
			dir   bool
			names map[string]int
			bytes map[byte]int
		}
		var handles []*shared
		shModel, err := lm.Flatten(ls...)
		h.Must(err)
		for _, q := range paths {
			n, err := shModel.Resolve(q)
			if err != nil || len(handles) >= 3 || unspecified(n) && q != "." {
				continue
			}
			s := &shared{q: q, dir: n.IsDir(), names: map[string]int{}, bytes: map[byte]int{}}
			if s.dir && len(n.Names()) < 2 || !s.dir && (omit || n.Ino.E.Type != tar.TypeReg || len(n.Ino.E.Body) < 2) {
				continue
			}
			if s.f, err = fsys.Open(q); err != nil {
				c.Fatalf("Open(%q): %v\nlayers: %s", q, err, lm.Describe(ls))
			}
			handles = append(handles, s)
		}
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, s := range handles {
					for {
						if s.dir {
							d, ok := s.f.(fs.ReadDirFile)
							if !ok {
								break
							}
							des, err := d.ReadDir(1)
							if err != nil {
								break
							}
							shMu.Lock()
							for _, de := range des {
								s.names[de.Name()]++
							}
							shMu.Unlock()
						} else {
							b := make([]byte, 2)
							k, err := s.f.Read(b)
							shMu.Lock()
							for _, x := range b[:k] {
								s.bytes[x]++
							}
							shMu.Unlock()
							if err != nil {
								break
							}
						}
					}
				}
			}()
		}
		c.Guard("concurrent readers", 120*time.Second, wg.Wait)
		for _, s := range handles {
			n, err := shModel.Resolve(s.q)
			h.Must(err)
			if s.dir {
				want := map[string]int{}
				for _, k := range n.Names() {
					if lm.IsWhiteout(k) {
						continue
					}
					want[k]++
				}
				for k, cnt := range s.names {
					if ch := n.Children[k]; ch != nil && unspecified(ch) && cnt == 1 {
						want[k] = 1
					}
				}
				if !reflect.DeepEqual(want, s.names) {
					c.Fatalf("ReadDir(%q) by 3 goroutines on one handle: got %v, want %v\nlayers: %s", s.q, s.names, want, lm.Describe(ls))
				}
			} else {
				want := map[byte]int{}
				for i := 0; i < len(n.Ino.E.Body); i++ {
					want[n.Ino.E.Body[i]]++
				}
				if !reflect.DeepEqual(want, s.bytes) {
					c.Fatalf("Read(%q) by 3 goroutines on one handle: got %v, want %v\nlayers: %s", s.q, s.bytes, want, lm.Describe(ls))
				}
			}
		}
		for _, err := range errs {
			if err != nil {
				c.Fatalf("with 4 readers: %v\nlayers: %s", err, lm.Describe(ls))
			}
		}
		if nt {
			c.Nontrivial(lm.Describe(ls))
		}
	})
}
