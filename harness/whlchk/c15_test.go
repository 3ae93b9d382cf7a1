package whlchk

import (
	"bytes"
	"context"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"
	"testing"
	"time"
	"unicode/utf16"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python/pep376"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"pgregory.net/rapid"

	"verif.local/harness/h"
	"verif.local/harness/lm"
	"verif.local/harness/wh"
)

// pyDumps is Python's json.dumps(x, sort_keys=True).
func pyDumps(x interface{}) string {
	switch x := x.(type) {
	case bool:
		return fmt.Sprint(x)
	case string:
		var sb strings.Builder
		sb.WriteByte('"')
		for _, r := range x {
			if i := strings.IndexRune("\"\\\n\r\t\f\b", r); i >= 0 {
				sb.WriteString("\\" + string(`"\nrtfb`[i]))
			} else if r >= ' ' && r <= '~' {
				sb.WriteRune(r)
			} else {
				for _, u := range utf16.Encode([]rune{r}) {
					fmt.Fprintf(&sb, "\\u%04x", u)
				}
			}
		}
		return sb.String() + `"`
	case map[string]interface{}:
		var parts []string
		for _, k := range wh.Keys(x) {
			parts = append(parts, pyDumps(k)+": "+pyDumps(x[k]))
		}
		return "{" + strings.Join(parts, ", ") + "}"
	}
	panic("unreachable")
}

func genText(t *rapid.T, label string) string {
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"a", "B", "/", "&", "<", ">", "é", "\u2028", "😀", "\"", "\\", "\n", "\r", "\t", "\b", "\f", "\x01", "\x7f", " ", "%20", "#egg=x", "#", "ſ", "中"}), 0, 8).Draw(t, label), "")
}

func genURL(t *rapid.T) (direct_url.DirectURL, map[string]interface{}) {
	d := direct_url.DirectURL{URL: h.Pick(t, "scheme", "https://example.com/", "file:///", "git+ssh://git@host/") + genText(t, "url")}
	m := map[string]interface{}{"url": d.URL}
	switch h.Int(t, "kind", 0, 3) {
	case 0:
	case 1:
		d.ArchiveInfo = &direct_url.ArchiveInfo{}
		x := map[string]interface{}{}
		if rapid.Bool().Draw(t, "hash") {
			d.ArchiveInfo.Hash = "sha256=" + genText(t, "hash")
			x["hash"] = d.ArchiveInfo.Hash
		}
		m["archive_info"] = x
	case 2:
		d.VCSInfo = &direct_url.VCSInfo{VCS: h.Pick(t, "vcs", "git", "hg", genText(t, "vcs")), CommitID: genText(t, "commit")}
		x := map[string]interface{}{"vcs": d.VCSInfo.VCS, "commit_id": d.VCSInfo.CommitID}
		if rapid.Bool().Draw(t, "rev") {
			d.VCSInfo.RequestedRevision = "r" + genText(t, "rev")
			x["requested_revision"] = d.VCSInfo.RequestedRevision
		}
		m["vcs_info"] = x
	case 3:
		d.DirInfo = &direct_url.DirInfo{Editable: rapid.Bool().Draw(t, "editable")}
		x := map[string]interface{}{}
		if d.DirInfo.Editable {
			x["editable"] = true
		}
		m["dir_info"] = x
	}
	return d, m
}

func TestC15(t *testing.T) {
	p := h.Start(t, "C15", "the wheel has at least three files besides its metadata")
	p.Run("records", 2500, 40000, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		var extra []wh.Member
		w := wh.Gen(c.T, plat, wh.Opts{Data: true, Dirs: true, Pyc: true, Max: 8, Extra: extra})
		if h.OneIn(c.T, "own", 4) { // files that the wheel itself brings along and that installing replaces
			for _, n := range []string{"INSTALLER", "REQUESTED", "direct_url.json"} {
				if rapid.Bool().Draw(c.T, n) {
					w.Members = append(w.Members, wh.Member{Name: w.DistInfo() + "/" + n, Body: "from the wheel", MTime: wh.GenTime(c.T)})
				}
			}
		}
		if h.OneIn(c.T, "large", 30) {
			w.Members = append(w.Members, wh.Member{Name: "vlarge.bin", Body: strings.Repeat("0123456789abcde\n", h.Pick(c.T, "kib", 63, 64, 1023, 1024, 1200, 2300)*64) + h.Pick(c.T, "end", "", "x"), MTime: wh.GenTime(c.T), Deflate: true})
		}
		bs := w.Zip()
		times, _ := wh.ZipTimes(bs)
		max := wh.GenTime(c.T)
		algo := h.Pick(c.T, "algo", "sha256", "", "sha512", "sha384", "md5", "sha1", "sha224")
		installer := h.Pick(c.T, "installer", "pip", "ocibuild layer wheel", "é x")
		var hooks []bdist.PostInstallHook
		model := w.Install(plat, times, time.Time{})
		origBody := map[string]string{} // of rewritten scripts
		for n, f := range model {
			for _, m := range w.Members {
				if m.Name == f.From && f.Kind == "scripts" && m.Body != f.Body {
					origBody[n] = m.Body
				}
			}
		}
		addPyc(model)
		di := path.Join(w.Root(plat), w.DistInfo())
		put := func(n, body string) {
			model[path.Join(di, n)] = &wh.File{Mode: 0o644, Body: body, MTime: max}
		}
		if rapid.Bool().Draw(c.T, "requested") {
			req := h.Pick(c.T, "req", "", "# marker", "x")
			hooks = append(hooks, pep376.RecordRequested(req))
			if req != "" {
				req += "\n"
			}
			put("REQUESTED", req)
		}
		if rapid.Bool().Draw(c.T, "addhook") {
			hooks = append(hooks, func(_ context.Context, _ time.Time, vfs map[string]fsutil.FileReference, _ string) error {
				vfs["etc/x,y"] = &fsutil.InMemFileReference{FileInfo: memInfo("etc/x,y", "hello"), MFullName: "etc/x,y", MContent: []byte("hello")}
				return nil
			})
			model["etc/x,y"] = &wh.File{Mode: 0o640, Body: "hello", MTime: time.Unix(1e9, 0)}
		}
		var du *direct_url.DirectURL
		if rapid.Bool().Draw(c.T, "url") {
			d, m := genURL(c.T)
			du = &d
			put("direct_url.json", pyDumps(m))
		}
		hooks = append(hooks, recording_installs.Record(algo, installer, du))
		put("INSTALLER", installer+"\n")
		if algo == "" {
			algo = "sha256"
		}
		if len(w.Members) >= 5 {
			c.Nontrivial(fmt.Sprintf("%s on %+v algo=%s url=%v", w, plat.Scheme, algo, du))
		}
		var first []byte
		for round := 0; round < 2; round++ {
			got := install(c, bs, w.Filename(), plat, &stub{}, time.Time{}, max, bdist.PostInstallHooks(hooks...))
			if got.err != nil {
				c.Fatalf("installing failed: %v; %s", got.err, w)
			}
			if round == 1 {
				if !bytes.Equal(first, got.raw) {
					c.Fatalf("installing twice gives different layers; %s", w)
				}
				return
			}
			first = got.raw
			rec := got.files[path.Join(di, "RECORD")]
			checkRecord(c, rec.Body, path.Dir(di), algo, got.files, origBody)
			put("RECORD", rec.Body)
			if d := diffFiles(expect(model, plat, max), got.files); d != "" {
				c.Fatalf("%s\nfor %s", d, w)
			}
			if du != nil {
				var back direct_url.DirectURL
				if err := json.Unmarshal([]byte(got.files[path.Join(di, "direct_url.json")].Body), &back); err != nil || back.URL != du.URL {
					c.Fatalf("direct_url.json does not read back: %v", err)
				}
			}
		}
	})
	// files of earlier hooks that cannot be opened or read
	p.Run("faults", 800, 8000, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		w := wh.Gen(c.T, plat, wh.Opts{Max: 2})
		body := strings.Repeat(h.Pick(c.T, "text", "", "x", "some text\n"), h.Pick(c.T, "times", 1, 5, 9000))
		odd := genOdd(c.T, h.Pick(c.T, "name", "etc/odd", "odd.py", "usr/share/odd.txt"), body)
		c.Nontrivial(odd.String())
		got := install(c, w.Zip(), w.Filename(), plat, &stub{}, time.Time{}, time.Time{}, bdist.PostInstallHooks(
			func(_ context.Context, _ time.Time, vfs map[string]fsutil.FileReference, _ string) error {
				odd.add(vfs)
				return nil
			},
			recording_installs.Record("", "x", nil)))
		if d := odd.judge(got.err); d != "" {
			c.Fatalf("%s: %s", odd, d)
		}
		c.LabelIf(odd.failed, "failed")
	})
	p.Run("unsupported", 50, 200, func(c *h.C) {
		plat := wh.GenPlatform(c.T)
		w := wh.Gen(c.T, plat, wh.Opts{Max: 2})
		algo := h.Pick(c.T, "algo", "sha3_256", "blake2b", "crc32", "SHA256", "nope")
		c.Nontrivial(algo)
		if got := install(c, w.Zip(), w.Filename(), plat, &stub{}, time.Time{}, time.Time{}, recording_installs.Record(algo, "x", nil)); got.err == nil {
			rec := got.files[path.Join(w.Root(plat), w.DistInfo(), "RECORD")].Body
			if !strings.Contains(rec, ","+algo+"=") {
				c.Fatalf("the unsupported algorithm %q was accepted: %q", algo, rec)
			}
		}
	})
}

// checkRecord checks an installed RECORD against the files.
func checkRecord(c *h.C, record, base, algo string, files map[string]lm.Entry, origBody map[string]string) {
	rd := csv.NewReader(strings.NewReader(record))
	rows, err := rd.ReadAll()
	if err != nil {
		c.Fatalf("RECORD is not a CSV file: %v", err)
	}
	seen := map[string]bool{}
	var names []string
	for _, r := range rows {
		if len(r) != 3 {
			c.Fatalf("RECORD has the row %q", r)
		}
		names = append(names, r[0])
		n := strings.TrimPrefix(path.Join("/", base, r[0]), "/")
		if path.IsAbs(r[0]) {
			n = strings.TrimPrefix(path.Clean(r[0]), "/")
		}
		f, ok := files[n]
		if !ok || f.Type != '0' {
			c.Fatalf("RECORD has %q, which is not a file of the layer", r[0])
		}
		if seen[n] {
			c.Fatalf("RECORD has %q twice", n)
		}
		seen[n] = true
		body, rewritten := origBody[n]
		a := algo
		if !rewritten {
			body = f.Body
		} else if k := strings.Index(r[1], "="); k > 0 {
			a = r[1][:k] // always sha256 so far
			if a != algo && a != "sha256" {
				c.Fatalf("RECORD has the hash %q", r[1])
			}
		}
		want := []string{wh.Hash(a, body), fmt.Sprint(len(body))}
		if rewritten && strings.HasSuffix(n, ".pyc") {
			continue // both rules apply
		}
		if strings.HasSuffix(n, ".pyc") || n == path.Join(base, path.Base(path.Dir(n)), "RECORD") && strings.HasSuffix(path.Dir(n), ".dist-info") {
			want = []string{"", ""}
		}
		if r[1] != want[0] || r[2] != want[1] {
			c.Fatalf("RECORD has %q, want %q", r, want)
		}
	}
	for n, f := range files {
		if f.Type == '0' && !seen[n] {
			c.Fatalf("RECORD does not have %q", n)
		}
	}
	if !sort.StringsAreSorted(names) {
		c.Fatalf("RECORD is not sorted: %q", names)
	}
}
