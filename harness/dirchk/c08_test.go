package dirchk

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"syscall"
	"testing"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"pgregory.net/rapid"

	"verif.local/harness/h"
	"verif.local/harness/lm"
)

// tent is a tar entry with all three times.
type tent struct {
	lm.Entry
	ATime, CTime time.Time
	Recs         map[string]string // more PAX records
}

func tarOf(es []tent) []byte {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	for _, e := range es {
		hdr := e.Header()
		hdr.AccessTime, hdr.ChangeTime = e.ATime, e.CTime
		for k, v := range e.Recs {
			if hdr.PAXRecords == nil {
				hdr.PAXRecords = map[string]string{}
			}
			hdr.PAXRecords[k] = v
		}
		h.Must(w.WriteHeader(hdr))
		if e.Type == tar.TypeReg {
			_, err := w.Write([]byte(e.Body))
			h.Must(err)
		}
	}
	h.Must(w.Close())
	return buf.Bytes()
}

func genTents(t *rapid.T) []tent {
	var ret []tent
	h.Repeat(t, "entries", 0, 6, func(t *rapid.T) {
		e := tent{Entry: lm.Entry{Name: lm.GenPath(t, 3), Mode: int64(h.Pick(t, "mode", 0o644, 0o755)), UID: h.Pick(t, "uid", 0, 3), GID: h.Pick(t, "gid", 0, 4),
			Uname: h.Pick(t, "un", "", "root"), Gname: h.Pick(t, "gn", "", "root"), MTime: time.Unix(1000, 0)}}
		switch h.Weighted(t, "type", 5, 2, 2, 1, 1) {
		case 0:
			e.Type = tar.TypeReg
			e.Body = h.Pick(t, "b", "", "x", "xy")
			if h.OneIn(t, "big", 3) {
				e.Body = string(bytes.Repeat([]byte{'z'}, h.Pick(t, "n", 1023, 1024, 1025, 2047, 2048, 3000)))
				if h.OneIn(t, "huge", 40) {
					e.Body = strings.Repeat("z", h.Pick(t, "hugelen", 32768, 65536, 65537, 1<<20, 1<<20+5, 2<<20+3))
				}
			}
		case 1:
			e.Type = tar.TypeDir
		case 2:
			e.Type, e.Link = tar.TypeSymlink, lm.GenPath(t, 2)
		case 3:
			e.Type, e.Link = tar.TypeLink, lm.GenPath(t, 2)
		case 4:
			e.Type, e.Major, e.Minor = h.Pick(t, "dev", byte(tar.TypeChar), tar.TypeBlock), 1, int64(h.Int(t, "minor", 0, 3))
			if h.OneIn(t, "fifo", 3) {
				e.Type, e.Major, e.Minor = tar.TypeFifo, 0, 0
			}
		}
		if h.OneIn(t, "odd", 10) {
			switch h.Int(t, "oddkind", 0, 3) {
			case 0:
				e.Name = strings.Repeat(h.Pick(t, "longch", "n", "ö", "nn/"), h.Pick(t, "longlen", 50, 99, 100, 101, 130)) + "e"
			case 1:
				e.UID = h.Pick(t, "biguid", 2097151, 2097152, 2147483647)
			case 2:
				e.GID = h.Pick(t, "biggid", 2097151, 2097152, 2147483647)
			default:
				if e.Link != "" {
					e.Link = strings.Repeat(h.Pick(t, "linkch", "n", "ö", "../"), h.Pick(t, "linklen", 50, 99, 100, 101, 130)) + "e"
				}
			}
		}
		if h.OneIn(t, "pax", 3) {
			e.Format = tar.FormatPAX
			if rapid.Bool().Draw(t, "x") {
				e.Xattr = "v"
			}
			if h.OneIn(t, "recs", 3) {
				e.Recs = map[string]string{h.Pick(t, "rec", "SCHILY.acl.access", "comment", "VENDOR.time", "VENDOR.mtime", "SCHILY.xattr.user.mtime", "LIBARCHIVE.creationtime2", "SCHILY.xattr.x.y"): h.Pick(t, "recv", "1", "2")}
			}
		}
		ret = append(ret, e)
	})
	return ret
}

// retime changes nothing but times.
func retime(t *rapid.T, es []tent) []tent {
	ret := append([]tent{}, es...)
	for i := range ret {
		sec := int64(h.Pick(t, "sec", 1000, 0, 1700000000, 99))
		ns := int64(0)
		if h.OneIn(t, "farsec", 12) {
			sec = h.Pick(t, "far", int64(-1), -5000000000, 2147483648, 8589934591, 8589934592, 253402300799)
		}
		if ret[i].Format != tar.FormatPAX || ret[i].Xattr == "" && ret[i].Recs == nil {
			// nothing in it needs this very format
			ret[i].Format = h.Pick(t, "fmt", tar.FormatUnknown, tar.FormatPAX, tar.FormatGNU)
		}
		if ret[i].Format == tar.FormatGNU && rapid.Bool().Draw(t, "gnutimes") {
			ret[i].ATime = time.Unix(int64(h.Int(t, "gatime", 1, 100000)), 0)
			ret[i].CTime = time.Unix(int64(h.Int(t, "gctime", 1, 100000)), 0)
		}
		if ret[i].Format == tar.FormatPAX {
			ns = int64(h.Pick(t, "ns", 0, 0, 5, 500000000))
			if rapid.Bool().Draw(t, "at") {
				ret[i].ATime = time.Unix(int64(h.Int(t, "atime", 1, 100000)), ns)
			}
			if rapid.Bool().Draw(t, "ct") {
				ret[i].CTime = time.Unix(int64(h.Int(t, "ctime", 1, 100000)), ns)
			}
		}
		ret[i].MTime = time.Unix(sec, ns)
	}
	return ret
}

// mutate changes one thing that is not a time.
func mutate(t *rapid.T, es []tent) ([]tent, string) {
	ret := append([]tent{}, es...)
	if len(ret) == 0 {
		return append(ret, tent{Entry: lm.Entry{Name: "new", Type: tar.TypeDir, Mode: 0o755}}), "add"
	}
	i := h.Int(t, "mi", 0, len(ret)-1)
	e := &ret[i]
	mut := h.Int(t, "mut", 0, 10)
	if e.Type == tar.TypeReg && len(e.Body) > 4000 && h.OneIn(t, "mutbig", 2) {
		mut = 6
	}
	switch mut {
	case 0:
		e.Mode ^= 0o100
		return ret, "mode"
	case 1:
		e.UID++
		return ret, "uid"
	case 2:
		e.GID++
		return ret, "gid"
	case 3:
		e.Uname += "x"
		return ret, "uname"
	case 4:
		e.Gname += "x"
		return ret, "gname"
	case 5:
		e.Name += "x"
		return ret, "name"
	case 6:
		if e.Type == tar.TypeReg && len(e.Body) > 0 {
			k := h.Pick(t, "where", 0, len(e.Body)-1, len(e.Body)/2)
			b := []byte(e.Body)
			b[k] ^= 0x20
			e.Body = string(b)
			return ret, "body"
		}
		if e.Type == tar.TypeReg {
			e.Body = "new"
			return ret, "body"
		}
		if e.Type == tar.TypeSymlink || e.Type == tar.TypeLink {
			e.Link += "x"
			return ret, "link"
		}
		if e.Type == tar.TypeChar {
			e.Minor += 7
			return ret, "dev"
		}
		e.Mode ^= 0o001
		return ret, "mode"
	case 7:
		return append(ret[:i], ret[i+1:]...), "drop"
	case 8:
		return append(ret, tent{Entry: lm.Entry{Name: "new", Type: tar.TypeReg, Mode: 0o755}}), "add"
	case 9:
		if e.Format == tar.FormatPAX {
			switch {
			case e.Recs != nil && rapid.Bool().Draw(t, "rec"):
				recs := map[string]string{}
				for k, v := range e.Recs {
					switch h.Int(t, "how", 0, 2) {
					case 0:
						recs[k] = v + "0"
					case 1:
						recs[k+"x"] = v
					}
				}
				e.Recs = recs
			case e.Recs == nil && h.OneIn(t, "newrec", 3):
				e.Recs = map[string]string{"SCHILY.xattr.user.new": "v"}
			default:
				e.Xattr += "w"
			}
			return ret, "xattr"
		}
		if e.Type == tar.TypeReg {
			e.Body += "x"
			return ret, "longer"
		}
		e.Name = "pre/" + e.Name
		return ret, "name"
	default:
		if e.Type == tar.TypeReg && e.Body == "" {
			e.Type = tar.TypeFifo
			return ret, "type"
		}
		if e.Type == tar.TypeSymlink {
			e.Type = tar.TypeLink
			return ret, "type"
		}
		e.GID += 2
		return ret, "gid"
	}
}

type closeLayer struct {
	ociv1.Layer
	bs       []byte
	err      error
	openErr  error
	closeErr error
	open     *int
}

func (l closeLayer) Uncompressed() (io.ReadCloser, error) {
	if l.openErr != nil {
		return nil, l.openErr
	}
	*l.open++
	r := lm.Pieces(bytes.NewReader(l.bs))
	if l.err != nil {
		r = io.MultiReader(r, &failReader{l.err})
	}
	return &closeReader{r, l}, nil
}

type closeReader struct {
	io.Reader
	l closeLayer
}

func (r *closeReader) Close() error { *r.l.open--; return r.l.closeErr }

func TestC08(t *testing.T) {
	p := h.Start(t, "C08", "the layers have at least one entry and differ in times, or in exactly one other thing")
	eq := func(c *h.C, a, b []byte) bool {
		open := 0
		got, err := fsutil.LayersEqualExceptTimestamps(closeLayer{lm.FromBytes(a), a, nil, nil, nil, &open}, closeLayer{lm.FromBytes(b), b, nil, nil, nil, &open})
		if err != nil {
			c.Fatalf("LayersEqualExceptTimestamps: %v", err)
		}
		if open != 0 {
			c.Fatalf("%d readers left open", open)
		}
		return got
	}
	str := func(es []tent) string {
		s := ""
		for _, e := range es {
			s += fmt.Sprintf("%v m=%d.%d a=%d c=%d fmt=%v; ", e.Entry, e.MTime.Unix(), e.MTime.Nanosecond(), e.ATime.Unix(), e.CTime.Unix(), e.Format)
		}
		return s
	}
	p.Run("times-only", 10000, 40000, func(c *h.C) {
		a := genTents(c.T)
		b := retime(c.T, a)
		a = retime(c.T, a)
		if !eq(c, tarOf(a), tarOf(b)) {
			c.Fatalf("layers that differ only in times are different\na: %s\nb: %s", str(a), str(b))
		}
		if len(a) > 0 {
			c.Nontrivial(str(a) + " | " + str(b))
		}
	})
	p.Run("one-change", 16000, 50000, func(c *h.C) {
		a := genTents(c.T)
		b, what := mutate(c.T, a)
		if rapid.Bool().Draw(c.T, "retime") {
			b = retime(c.T, b)
		}
		x, y := tarOf(a), tarOf(b)
		if rapid.Bool().Draw(c.T, "swap") {
			x, y = y, x
		}
		if eq(c, x, y) {
			c.Fatalf("layers that differ in a %s are equal\na: %s\nb: %s", what, str(a), str(b))
		}
		c.Label("change-" + what)
		if len(a) > 0 {
			c.Nontrivial(what + ": " + str(a) + " | " + str(b))
		}
	})
	// Layers from files and from pipes, which are read while another reader of the same layer is open.
	p.Run("files", 400, 4000, func(c *h.C) {
		d, done := h.TempDir()
		defer done()
		a := genTents(c.T)
		b, want := retime(c.T, a), true
		if rapid.Bool().Draw(c.T, "change") {
			b, _ = mutate(c.T, a)
			want = false
		}
		var open []ociv1.Layer
		for i, es := range [][]tent{a, b} {
			bs := tarOf(es)
			if rapid.Bool().Draw(c.T, "gz") {
				var z bytes.Buffer
				w := gzip.NewWriter(&z)
				_, err := w.Write(bs)
				h.Must(err)
				h.Must(w.Close())
				bs = z.Bytes()
			}
			name := fmt.Sprintf("%s/%d", d, i)
			if rapid.Bool().Draw(c.T, "pipe") {
				h.Must(syscall.Mkfifo(name, 0o600))
				fed := make(chan struct{})
				go func() {
					defer close(fed)
					if f, err := os.OpenFile(name, os.O_WRONLY, 0); err == nil {
						_, _ = f.Write(bs)
						_ = f.Close()
					}
				}()
				defer func() {
					// let the writer go if nobody has read from the pipe
					if f, err := os.OpenFile(name, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
						select {
						case <-fed:
						case <-time.After(100 * time.Millisecond):
						}
						_ = f.Close()
					}
					<-fed
				}()
			} else {
				h.Must(os.WriteFile(name, bs, 0o600))
			}
			l, err := fsutil.OpenLayer(name)
			if err != nil {
				c.Fatalf("OpenLayer: %v\n%s", err, str(es))
			}
			open = append(open, l)
		}
		for _, pair := range [][2]int{{0, 0}, {0, 1}, {1, 1}, {1, 0}} {
			got, err := fsutil.LayersEqualExceptTimestamps(open[pair[0]], open[pair[1]])
			if err != nil {
				c.Fatalf("comparing files %v: %v\na: %s\nb: %s", pair, err, str(a), str(b))
			}
			if got != (want || pair[0] == pair[1]) {
				c.Fatalf("files %v: equal=%v\na: %s\nb: %s", pair, got, str(a), str(b))
			}
		}
		if len(a) > 0 {
			c.Nontrivial(str(a) + " | " + str(b))
		}
	})
	p.Run("order", 5000, 20000, func(c *h.C) {
		a := genTents(c.T)
		if len(a) < 2 {
			return
		}
		i := h.Int(c.T, "i", 0, len(a)-2)
		b := append([]tent{}, a...)
		b[i], b[i+1] = b[i+1], b[i]
		x, y := a[i], a[i+1]
		x.Format, y.Format = 0, 0 // how it is encoded does not matter
		want := reflect.DeepEqual(x, y)
		if got := eq(c, tarOf(a), tarOf(b)); got != want {
			c.Fatalf("swapped entries: equal=%v, want %v\na: %s\nb: %s", got, want, str(a), str(b))
		}
		c.Nontrivial(str(a) + " | " + str(b))
	})
	p.Run("faults", 4000, 10000, func(c *h.C) {
		a := genTents(c.T)
		if len(a) == 0 {
			return
		}
		bs := tarOf(a)
		open := 0
		fault := errors.New("injected")
		x := closeLayer{lm.FromBytes(bs), bs, nil, nil, nil, &open}
		y := x
		kind := h.Pick(c.T, "fault", "open", "read", "close", "cut")
		switch kind {
		case "open":
			y.openErr = fault
		case "read":
			y.err = fault
			y.bs = bs[:h.Int(c.T, "at", 0, len(bs)-1025)]
		case "close":
			y.closeErr = fault
		case "cut":
			// cut off inside of a header: the last entry's one, which starts where an archive
			// without that entry has its end mark
			start := len(tarOf(a[:len(a)-1])) - 1024
			y.bs = bs[:start+h.Int(c.T, "off", 1, 511)]
			fault = io.ErrUnexpectedEOF
		}
		if rapid.Bool().Draw(c.T, "swap") {
			x, y = y, x
		}
		got, err := fsutil.LayersEqualExceptTimestamps(x, y)
		if got || !errors.Is(err, fault) {
			c.Fatalf("%s fault: equal=%v, error %v\n%s", kind, got, err, str(a))
		}
		if open != 0 {
			c.Fatalf("%s fault: %d readers left open", kind, open)
		}
		c.Nontrivial(kind + str(a))
	})
}
