package pychk

import (
	"archive/tar"
	"fmt"
	"io/fs"
	"testing"

	"pgregory.net/rapid"

	"github.com/datawire/ocibuild/pkg/python"
	"verif.local/harness/h"
)

func TestC28(t *testing.T) {
	p := h.Start(t, "C28", "a mode with a file type other than a regular file, or with set-id or sticky bits")
	p.Assume("the type for whiteouts, which Python on Linux does not know, is not judged as text")

	goTypes := map[python.StatMode]fs.FileMode{
		0o010000: fs.ModeNamedPipe, 0o020000: fs.ModeDevice | fs.ModeCharDevice, 0o040000: fs.ModeDir, 0o060000: fs.ModeDevice,
		0o100000: 0, 0o120000: fs.ModeSymlink, 0o140000: fs.ModeSocket,
	}
	p.Run("mode", 40000, 20000, func(c *h.C) {
		// 32 modes at a time: a random one, with all types and some neighbours
		base := uint16(rapid.Uint16().Draw(c.T, "mode"))
		flip := uint(h.Int(c.T, "flip", 0, 11))
		var modes []uint16
		for ty := 0; ty < 16; ty++ {
			m := base&0o7777 | uint16(ty)<<12
			modes = append(modes, m, m^1<<flip)
		}
		var want struct{ S []string }
		ask(map[string]interface{}{"op": "filemode", "m": modes}, &want)
		for i, m := range modes {
			pm := python.StatMode(m)
			ty := pm & 0o170000
			if s := pm.String(); s != want.S[i] && ty != 0o160000 {
				c.Fatalf("mode %06o is %q, Python has %q", m, s, want.S[i])
			}
			wantGo, known := goTypes[ty]
			if !known {
				wantGo = fs.ModeIrregular
			}
			wantGo |= fs.FileMode(m & 0o777)
			if m&0o4000 != 0 {
				wantGo |= fs.ModeSetuid
			}
			if m&0o2000 != 0 {
				wantGo |= fs.ModeSetgid
			}
			if m&0o1000 != 0 {
				wantGo |= fs.ModeSticky
			}
			if g := pm.ToGo(); g != wantGo {
				c.Fatalf("mode %06o is %v, want %v", m, g, wantGo)
			}
			if known {
				if back := python.ModeFromGo(wantGo); back != pm {
					c.Fatalf("mode %06o through %v is %06o", m, wantGo, back)
				}
			}
			if pm.IsDir() != (ty == 0o040000) || pm.IsRegular() != (ty == 0o100000) {
				c.Fatalf("mode %06o: IsDir %v, IsRegular %v", m, pm.IsDir(), pm.IsRegular())
			}
			// archive/tar translates Unix modes on its own
			if hdr := (&tar.Header{Typeflag: tar.TypeReg, Name: "x", Mode: int64(m & 0o7777)}); known && hdr.FileInfo().Mode() != pm.ToGo()&^fs.ModeType {
				c.Fatalf("mode %06o: permissions are %v, archive/tar has %v", m, pm.ToGo(), hdr.FileInfo().Mode())
			}
		}
		c.Nontrivial(fmt.Sprintf("%04o^%d", base&0o7777, flip))
	})

	// all there are
	p.Run("all", 1, 1, func(c *h.C) {
		_ = rapid.Bool().Draw(c.T, "x")
		var modes []uint16
		for m := 0; m < 1<<16; m++ {
			modes = append(modes, uint16(m))
		}
		var want struct{ S []string }
		ask(map[string]interface{}{"op": "filemode", "m": modes}, &want)
		for m, w := range want.S {
			if s := python.StatMode(m).String(); s != w && m>>12 != 0o16 {
				c.Fatalf("mode %06o is %q, Python has %q", m, s, w)
			}
			g := python.StatMode(m).ToGo()
			if ty, known := goTypes[python.StatMode(m)&0o170000]; known && (g.Type() != ty || python.ModeFromGo(g) != python.StatMode(m)) {
				c.Fatalf("mode %06o is %v, and back %06o", m, g, python.ModeFromGo(g))
			}
		}
		c.Nontrivial("all modes")
		attrs := map[string]uint32{}
		ask(map[string]interface{}{"op": "fileattrs"}, &attrs)
		for name, v := range map[string]python.StatFileAttribute{
			"READONLY": python.FileAttributeReadonly, "HIDDEN": python.FileAttributeHidden, "SYSTEM": python.FileAttributeSystem,
			"DIRECTORY": python.FileAttributeDirectory, "ARCHIVE": python.FileAttributeArchive, "DEVICE": python.FileAttributeDevice,
			"NORMAL": python.FileAttributeNormal, "TEMPORARY": python.FileAttributeTemporary, "SPARSE_FILE": python.FileAttributeSparseFile,
			"REPARSE_POINT": python.FileAttributeReparsePoint, "COMPRESSED": python.FileAttributeCompressed, "OFFLINE": python.FileAttributeOffline,
			"NOT_CONTENT_INDEXED": python.FileAttributeNotContentIndexed, "ENCRYPTED": python.FileAttributeEncrypted,
			"INTEGRITY_STREAM": python.FileAttributeIntegrityStream, "VIRTUAL": python.FileAttributeVirtual, "NO_SCRUB_DATA": python.FileAttributeNoScrubData,
		} {
			if w, ok := attrs["FILE_ATTRIBUTE_"+name]; !ok || uint32(v) != w {
				c.Fatalf("attribute %s is %#x, Python has %#x (%v)", name, uint32(v), w, ok)
			}
		}
		for name, v := range map[string]python.DOSAttribute{"READONLY": python.DOSReadOnly, "HIDDEN": python.DOSHidden, "SYSTEM": python.DOSSystem, "DIRECTORY": python.DOSDirectory, "ARCHIVE": python.DOSArchive} {
			if uint32(v) != attrs["FILE_ATTRIBUTE_"+name] {
				c.Fatalf("DOS attribute %s is %#x, Python has %#x", name, uint32(v), attrs["FILE_ATTRIBUTE_"+name])
			}
		}
	})

	p.Run("zip", 60000, 600000, func(c *h.C) {
		raw := rapid.Uint32().Draw(c.T, "raw")
		ea := python.ParseZIPExternalAttributes(raw)
		// as in zipfile.py
		if uint32(ea.UNIX) != raw>>16 || uint32(ea.MSDOS) != raw&0xff || ea.Raw() != raw {
			c.Fatalf("%#x is %+v, and back %#x", raw, ea, ea.Raw())
		}
		ea = python.ZIPExternalAttributes{UNIX: python.StatMode(rapid.Uint16().Draw(c.T, "u")), MSDOS: python.DOSAttribute(rapid.Uint8().Draw(c.T, "d"))}
		if uint32(ea.UNIX)<<16|uint32(ea.MSDOS) != ea.Raw() || python.ParseZIPExternalAttributes(ea.Raw()) != ea {
			c.Fatalf("%+v is %#x, and back %+v", ea, ea.Raw(), python.ParseZIPExternalAttributes(ea.Raw()))
		}
		fa := python.StatFileAttribute(raw)
		if d := fa.ToDOS(); d != python.DOSAttribute(raw)&(python.DOSReadOnly|python.DOSHidden|python.DOSSystem|python.DOSDirectory|python.DOSArchive) {
			c.Fatalf("attributes %#x are %#x in DOS", raw, d)
		}
		c.Nontrivial(fmt.Sprint(raw))
	})
}
