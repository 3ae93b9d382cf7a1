package lm

import (
	"archive/tar"
	"fmt"
	"path"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif.local/harness/h"
)

var comps = []string{"a", "b", "c", "d"}
var oddComps = []string{"a.b", ".hid", "é", "x y", "-n", "A", "a-", "a!", "zz", "wh.a", "..x", "...", "a..", ".whx", ".whx", ".wh", "a.wh.b", "a.wh.b", "b.wh."}

// UTF8Only says to make no names that io/fs does not allow.
var UTF8Only bool

// wide makes genComp draw from more names.
var wide bool

func genComp(t *rapid.T) string {
	if wide && h.OneIn(t, "wide", 2) {
		return fmt.Sprintf("n%d", h.Int(t, "num", 0, 99))
	}
	if !UTF8Only && h.OneIn(t, "bytes", 100) {
		return h.Pick(t, "bytecomp", "\xfe", "a\xff\xff")
	}
	if h.OneIn(t, "odd", 7) {
		return h.Pick(t, "oddcomp", oddComps...)
	}
	return h.Pick(t, "comp", comps...)
}

// GenPath draws a clean path of up to max components from a small alphabet.
func GenPath(t *rapid.T, max int) string {
	n := h.Int(t, "depth", 1, max)
	if h.OneIn(t, "deep", 40) {
		n += h.Int(t, "deeper", 1, 12)
	}
	ps := make([]string, n)
	for i := range ps {
		ps[i] = genComp(t)
	}
	if h.OneIn(t, "long", 40) { // around the limits of tar's name fields
		ps[n-1] = strings.Repeat(h.Pick(t, "longch", "n", "ö"), h.Pick(t, "longlen", 49, 50, 51, 99, 100, 101, 127))
	}
	return strings.Join(ps, "/")
}

// Messy returns another spelling of a clean relative path.
func Messy(t *rapid.T, p string, dir bool) string {
	switch h.Weighted(t, "spelling", 10, 2, 1, 1, 1) {
	case 1:
		p = "./" + p
	case 2:
		p = strings.Replace(p, "/", "//", 1)
	case 3:
		p = "q/../" + p
	case 4:
		p = strings.Replace(p, "/", "/./", 1)
	}
	if dir && !strings.HasSuffix(p, "/") && rapid.Bool().Draw(t, "slash") {
		p += "/"
	}
	return p
}

func genAttrs(t *rapid.T, e *Entry) {
	e.Mode = h.Pick(t, "mode", int64(0o644), 0o755, 0o600, 0o4755, 0o1777, 0o2750, 0)
	e.UID = h.Pick(t, "uid", 0, 1, 1000, 65534, 3000000, 2147483647)
	e.GID = h.Pick(t, "gid", 0, 1, 1000, 2097151, 2097152)
	if h.OneIn(t, "named", 4) {
		e.Uname = h.Pick(t, "uname", "root", "user")
		e.Gname = h.Pick(t, "gname", "root", "wheel")
	}
	e.MTime = time.Unix(int64(h.Pick(t, "mtime", 0, 1, 1600000000, 1700000001, 2147483648)), 0)
	if h.OneIn(t, "oddtime", 25) {
		e.MTime = time.Unix(h.Pick(t, "faroff", int64(-1), -100000, 8589934591, 8589934592, 253402300799), 0)
	}
	switch h.Weighted(t, "fmt", 6, 2, 1) {
	case 1:
		e.Format = tar.FormatPAX
		if h.OneIn(t, "subsecond", 3) {
			e.MTime = e.MTime.Add(time.Duration(h.Int(t, "ms", 1, 999)) * time.Millisecond)
		}
		if rapid.Bool().Draw(t, "x") {
			e.Xattr = h.Pick(t, "xattr", "v1", "v2")
		}
	case 2:
		e.Format = tar.FormatGNU
	}
}

// Huge > 0 makes GenBody give more than a megabyte now and then (one in about 45*Huge).
var Huge int

// GenBody draws file contents (short, sometimes spanning tar blocks).
func GenBody(t *rapid.T) string {
	switch h.Weighted(t, "bodykind", 8, 32, 4, 1) {
	case 0:
		return ""
	case 1:
		return fmt.Sprintf("body-%d", h.Int(t, "body", 0, 9999))
	case 3:
		n := h.Pick(t, "biglen", 4095, 4096, 4097, 32767, 32768, 32769, 65536, 100000)
		if Huge > 0 && h.OneIn(t, "huge", Huge) {
			n = h.Pick(t, "hugelen", 1<<20, 1<<20+1, 1200000, 2<<20+7)
		}
		return strings.Repeat(string(rune('a'+h.Int(t, "ch", 0, 25))), n-1) + "$"
	default:
		n := h.Pick(t, "bodylen", 511, 512, 513, 1024, 1500)
		return strings.Repeat(string(rune('A'+h.Int(t, "ch", 0, 25))), n)
	}
}

// StackOpts bounds a generated stack.
type StackOpts struct {
	Symlinks  bool
	Hardlinks bool
	Whiteouts bool
	MaxLayers int
	MaxFiles  int
	// BaseLink is a path of the unknown lower layers that hardlinks may refer to.
	BaseLink string
}

// GenBase draws layers for the bottom of an image: no whiteouts, symlinks only under names that
// upper layers never use as directories.
func GenBase(t *rapid.T, n int) []Layer {
	var ret []Layer
	for i := 0; i < n; i++ {
		var l Layer
		h.Repeat(t, "nbase", 0, 7, func(t *rapid.T) {
			e := Entry{Name: GenPath(t, 3)}
			genAttrs(t, &e)
			switch h.Weighted(t, "btype", 6, 3, 1) {
			case 0:
				e.Type = tar.TypeReg
				e.Body = "base-" + GenBody(t)
			case 1:
				e.Type = tar.TypeDir
			case 2:
				e.Name = path.Join(path.Dir(e.Name), "zlnk")
				e.Type = tar.TypeSymlink
				e.Link = GenPath(t, 2)
			}
			l = append(l, e)
		})
		wholeSeconds(l)
		ret = append(ret, l)
	}
	return ret
}

// GenStack draws a stack of layers together with statistics about what it exercises.
func GenStack(t *rapid.T, o StackOpts) ([]Layer, map[string]int) {
	stats := map[string]int{}
	var ret []Layer
	var used []string // paths used before: re-using them makes interactions likely
	pick := func(t *rapid.T, max int) string {
		if len(used) > 0 && h.Weighted(t, "reuse", 1, 1) == 0 {
			p := used[h.Int(t, "usedidx", 0, len(used)-1)]
			switch h.Weighted(t, "near", 3, 2, 2) {
			case 1:
				if d := path.Dir(p); d != "." {
					return d
				}
			case 2:
				if strings.Count(p, "/") < max {
					return p + "/" + genComp(t)
				}
			}
			return p
		}
		return GenPath(t, max)
	}
	min := 0
	if h.OneIn(t, "wide", 100) {
		min, o.MaxFiles, wide = 15, 45, true
		stats["wide"]++
		defer func() { wide = false }()
	}
	h.Repeat(t, "layers", 1, o.MaxLayers, func(t *rapid.T) {
		var l Layer
		i := len(ret)
		h.Repeat(t, "entries", min, o.MaxFiles, func(t *rapid.T) {
			var e Entry
			var after []Entry
			genAttrs(t, &e)
			if o.Symlinks && h.OneIn(t, "chain", 120) {
				// A long chain of symlinks, still within what Linux follows (40).
				n, at := h.Int(t, "chainlen", 5, 36), pick(t, 2)
				for k := 0; k <= n; k++ {
					c := Entry{Name: fmt.Sprintf("chain%d", k), Type: tar.TypeSymlink, Mode: 0o777, MTime: e.MTime}
					c.Link = h.Pick(t, "chainlink", "", "", "./", "/", "../", "/../") + fmt.Sprintf("chain%d", k+1)
					if k == n {
						c.Link = "/" + at
					}
					l = append(l, c)
				}
				used = append(used, "chain0", "chain0", "chain1", "chain0/"+genComp(t), "chain0/"+genComp(t))
				stats["symlink"]++
				stats["chain"]++
			}
			if h.OneIn(t, "global", 150) {
				// not a file at all: records for the archive as a whole
				l = append(l, Entry{Type: tar.TypeXGlobalHeader, Body: "about the archive", Name: h.Pick(t, "globalname", "pax_global_header", "pax_global_header",
					"/tmp/GlobalHead.1.1", "../g", genComp(t), pick(t, 2), ".wh."+genComp(t), pick(t, 2)+"/.wh..wh..opq")})
				stats["global"]++
			}
			p := pick(t, 3)
			used = append(used, p)
			w := []int{6, 4, 1, 0, 0, 0, 0}
			if o.Symlinks {
				w[3] = 3
			}
			if o.Hardlinks {
				w[4] = 2
			}
			if o.Whiteouts {
				w[5], w[6] = 4, 2
			}
			kind := h.Weighted(t, "type", w...)
			switch kind {
			case 0:
				e.Type = tar.TypeReg
				e.Body = GenBody(t)
				e.Name = Messy(t, p, false)
				if h.OneIn(t, "sparse", 60) {
					e.Sparse = h.Pick(t, "sparsekind", byte('S'), 'x')
					if e.Sparse == 'S' {
						e.Xattr, e.Format = "", tar.FormatGNU
					}
					e.MTime = e.MTime.Truncate(time.Second)
					e.Body += strings.Repeat("\x00", h.Pick(t, "hole", 1, 512, 5000)) + h.Pick(t, "tail", "", "tail")
					stats["sparse"]++
				}
			case 1:
				e.Type = tar.TypeDir
				e.Name = Messy(t, p, true)
				if h.OneIn(t, "rootdir", 12) {
					e.Name = h.Pick(t, "rootname", ".", "./")
				}
			case 2:
				e.Type = h.Pick(t, "special", byte(tar.TypeChar), tar.TypeBlock, tar.TypeFifo)
				if e.Type != tar.TypeFifo {
					e.Major, e.Minor = int64(h.Pick(t, "maj", 1, 2, 5, 259, 4095)), int64(h.Pick(t, "min", 0, 1, 3, 255, 256, 1048575))
				}
				e.Name = Messy(t, p, false)
			case 3:
				e.Type = tar.TypeSymlink
				e.Name = Messy(t, p, false)
				e.Mode = 0o777
				tgt := pick(t, 3)
				switch h.Weighted(t, "linkkind", 10, 6, 4, 3, 4) {
				case 4:
					// "up" from wherever the first part leads
					via := h.Pick(t, "abs", "", "", "/", "../") + pick(t, 2)
					if now := clone(ret, l); now != nil && h.OneIn(t, "vialink", 2) {
						var links []string
						for _, q := range now.Paths() {
							if n, err := now.Lookup(q); err == nil && n.IsLink() {
								links = append(links, q)
							}
						}
						if len(links) > 0 {
							via = "/" + links[h.Int(t, "via", 0, len(links)-1)]
						}
					}
					if h.OneIn(t, "gadget", 2) {
						// a directory and a link to it, from where it goes up
						far := pick(t, 3)
						via = pick(t, 2)
						l = append(l, Entry{Name: far, Type: tar.TypeDir, Mode: 0o755, MTime: e.MTime}, Entry{Name: via, Type: tar.TypeSymlink, Mode: 0o777, MTime: e.MTime, Link: "/" + far})
						via = "/" + via
						through := p + "/" + genComp(t)
						used = append(used, through, through, through)
						if h.OneIn(t, "use", 2) {
							after = append(after, Entry{Name: through, Type: tar.TypeReg, Mode: 0o644, MTime: e.MTime, Body: "through"})
						}
					}
					tgt = via + h.Pick(t, "dots", "/../", "/../", "/../../", "/.././") + tgt
					if h.OneIn(t, "twice", 3) {
						tgt = pick(t, 2) + "/../" + tgt
					}
				case 3:
					tgt = h.Pick(t, "roots", "/", ".", "..", "../..", "./"+tgt, "/../"+tgt)
				case 1:
					tgt = "/" + tgt
				case 2:
					tgt = strings.Repeat("../", h.Int(t, "up", 1, 3)) + tgt
				}
				e.Link = tgt
				stats["symlink"]++
			case 4:
				// anything that is not a directory, in the layers so far and in this very one
				var cands []string
				tmp := clone(ret, l)
				for _, q := range tmp.Paths() {
					if n, err := tmp.Lookup(q); err == nil && !n.IsDir() {
						cands = append(cands, q)
						if n.Ino.E.Type == tar.TypeReg {
							cands = append(cands, q)
						}
					}
				}
				if h.OneIn(t, "viasym", 4) { // named by a path that may go through symlinks
					for _, q := range used {
						if n, err := tmp.Lookup(q); err == nil && !n.IsDir() {
							cands = append(cands, q)
						}
					}
				}
				if o.BaseLink != "" && (len(cands) == 0 || h.OneIn(t, "baselink", 5)) {
					e.Type, e.Link = tar.TypeLink, o.BaseLink
				} else if len(cands) > 0 {
					tgt := cands[h.Int(t, "linktgt", 0, len(cands)-1)]
					n, _ := tmp.Lookup(tgt)
					e = n.Ino.E
					if n.Ino.E.Type != tar.TypeReg {
						stats["hardlink-special"]++
					}
					if h.OneIn(t, "messylink", 4) {
						tgt = h.Pick(t, "linkspelling", "./", "/", "q/../") + tgt
					}
					e.Type, e.Link, e.Body = tar.TypeLink, tgt, ""
				} else {
					return
				}
				e.Name = Messy(t, p, false)
				if c := strings.TrimPrefix(path.Clean(e.Link), "/"); c == path.Clean(e.Name) || strings.HasPrefix(c, path.Clean(e.Name)+"/") {
					return
				}
				stats["hardlink"]++
			case 5:
				d, b := path.Split(p)
				e = Entry{Name: d + ".wh." + b, Type: tar.TypeReg, Mode: 0o644, MTime: e.MTime}
				stats["whiteout"]++
				if i > 0 {
					stats["upper-whiteout"]++
				}
			case 6:
				if strings.Contains(p, "/") || h.Weighted(t, "rootopq", 4, 1) == 0 {
					e = Entry{Name: p + "/.wh..wh..opq"}
				} else {
					e = Entry{Name: ".wh..wh..opq"}
				}
				e.Type, e.Mode, e.MTime = tar.TypeReg, 0o644, time.Unix(0, 0)
				stats["opaque"]++
			}
			l = append(l, e)
			l = append(l, after...)
		})
		ret = append(ret, l)
	})
	for _, l := range ret {
		wholeSeconds(l)
	}
	stats["layers"] = len(ret)
	return ret, stats
}

// wholeSeconds rounds the times that their format cannot hold.
func wholeSeconds(l Layer) {
	for i := range l {
		if l[i].Format != tar.FormatPAX {
			l[i].MTime = l[i].MTime.Truncate(time.Second)
		}
	}
}

func clone(ls []Layer, extra Layer) *FS {
	all := append(append([]Layer{}, ls...), extra)
	f, err := Flatten(all...)
	if err != nil {
		return NewFS()
	}
	return f
}

// Describe renders a stack for samples and messages.
func Describe(ls []Layer) string {
	parts := make([]string, len(ls))
	for i, l := range ls {
		parts[i] = l.String()
	}
	return strings.Join(parts, " ++ ")
}
