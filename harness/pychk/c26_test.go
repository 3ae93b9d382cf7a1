package pychk

import (
	"bytes"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os/exec"
	"path"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/pkg/python/pypa/simple_repo_api"
	"verif.local/harness/h"
)

var algs = []string{"md5", "sha1", "sha224", "sha256", "sha384", "sha512"}

// genFragment makes a URL fragment; bad is whether it contradicts the content.
func genFragment(t *rapid.T, content []byte) (frag string, bad, checked bool) {
	var parts []string
	for n := h.Weighted(t, "nhash", 2, 8, 2); n > 0; n-- {
		alg := h.Pick(t, "alg", algs...)
		sum := sumOf(alg, content)
		checked = true
		if h.OneIn(t, "wrong", 3) {
			bad = true
			switch h.Int(t, "how", 0, 6) {
			case 5:
				sum += h.Pick(t, "junk", ";", "0", "=", ";x=y", "%25", "%25zz")
			case 6:
				sum = h.Pick(t, "junk", ";", "%25zz;", "0") + sum
			case 0:
				i := h.Int(t, "i", 0, len(sum)-1)
				ch := byte('0')
				if sum[i] == '0' {
					ch = '1'
				}
				sum = sum[:i] + string(ch) + sum[i+1:]
			case 1:
				sum = sum[:len(sum)-1]
			case 2:
				sum = sumOf(alg, append([]byte("x"), content...))
			case 3:
				sum = sum[:8]
			case 4:
				sum = ""
			}
		}
		parts = append(parts, alg+"="+sum)
	}
	if h.OneIn(t, "egg", 4) {
		parts = append(parts, h.Pick(t, "other", "egg=foo", "subdirectory=x", "blake2b=00", "egg=foo;bar", "egg=50%25", "%25zz=1", ";", "egg", ""))
	}
	for i := len(parts) - 1; i > 0; i-- {
		j := h.Int(t, "order", 0, i)
		parts[i], parts[j] = parts[j], parts[i]
	}
	return strings.Join(parts, "&"), bad, checked
}

func genContent(t *rapid.T) []byte {
	if h.OneIn(t, "huge", 300) {
		return bytes.Repeat([]byte("0123456789abcde\n"), h.Pick(t, "len", 5000, 70000, 140000, 700000))
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "content")
}

func short(bs []byte) string {
	if len(bs) > 100 {
		return fmt.Sprintf("%x...[%d]", bs[:20], len(bs))
	}
	return fmt.Sprintf("%x", bs)
}

func TestC26(t *testing.T) {
	p := h.Start(t, "C26", "a download with at least one hash, or one that must fail; an index page with at least two links; a signature; a run of the command")
	p.Assume("hashes in links are lower-case hexadecimal; hash collisions are ignored")

	newClient := func(net *fakeNet) simple_repo_api.Client {
		client := simple_repo_api.NewClient(nil, nil)
		client.BaseURL = "http://pypi.test/simple/"
		client.HTTPClient = &http.Client{Transport: net}
		return client
	}

	p.Run("download", 24000, 360000, func(c *h.C) {
		content := genContent(c.T)
		frag, bad, checked := genFragment(c.T, content)
		name := h.Pick(c.T, "name", "foo-1.0-py3-none-any.whl", "foo-1.0+local-py3-none-any.whl", "foo-1.0.tar.gz")
		dir := h.Pick(c.T, "dir", "../../packages/", "/packages/", "http://files.test/x/packages/", "//files.test/x/packages/", "", "./")
		moved := rapid.Bool().Draw(c.T, "moved")
		if !moved && !strings.HasPrefix(dir, "/") && !strings.HasPrefix(dir, "http:") {
			// relative to a page that may have been asked for with or
			// without the slash
			dir = "/packages/"
		}
		query := h.Pick(c.T, "query", "", "", "?a=b")
		href := dir + strings.ReplaceAll(name, "+", h.Pick(c.T, "plus", "+", "%2B")) + query
		full := href
		if frag != "" {
			full += "#" + frag
		}
		indexURL, _ := url.Parse("http://pypi.test/simple/foo/")
		pages := map[string]page{}
		if moved {
			pages["http://pypi.test/simple/foo/"] = page{Status: 301, Location: "http://mirror.test/a/b/foo/"}
			indexURL, _ = url.Parse("http://mirror.test/a/b/foo/")
		}
		attrs := [][2]string{}
		sig := h.Pick(c.T, "sig", "", "true", "false")
		if sig != "" {
			attrs = append(attrs, [2]string{"data-gpg-sig", sig})
		}
		pages[indexURL.String()] = page{Status: 200, Body: render(c.T, []anchor{{Text: name, HRef: full, Attrs: attrs}}, "")}
		fileURL, err := indexURL.Parse(href)
		h.Must(err)
		target := fileURL
		if h.OneIn(c.T, "redirect", 5) {
			target, _ = url.Parse("http://cdn.test/blob/1")
			pages[fileURL.String()] = page{Status: 302, Location: target.String()}
		}
		pg := page{Status: 200, Body: content}
		fails := bad
		wantCode := 0
		switch h.Weighted(c.T, "fault", 12, 2, 1, 1) {
		case 1:
			pg.Status = h.Pick(c.T, "status", 404, 403, 500, 503, 410, 204, 206, 201)
			wantCode = pg.Status
			fails = true
		case 2:
			pg.Cut = 1 + h.Int(c.T, "cut", 0, len(content))
			fails = fails || pg.Cut <= len(content)
		case 3:
			pg.Err = errors.New("no route to host")
			fails = true
		}
		pages[target.String()] = pg
		sigContent := []byte("SIGNATURE " + string(content))
		sigURL := *fileURL
		sigURL.Path += ".asc"
		if sigURL.RawPath != "" {
			sigURL.RawPath += ".asc"
		}
		hasSig := rapid.Bool().Draw(c.T, "hassig")
		sigStatus := 404
		if hasSig {
			sigStatus = h.Pick(c.T, "sigstatus", 200, 200, 200, 500, 403, 401, 503)
		}
		pages[sigURL.String()] = page{Status: sigStatus, Body: sigContent}

		net := &fakeNet{pages: pages}
		client := newClient(net)
		client.UserAgent = h.Pick(c.T, "ua", "", "test/1")
		ctx := quiet()
		links, err := client.ListPackageFiles(ctx, "foo")
		if err != nil || len(links) != 1 {
			c.Fatalf("listing: %v, %v", links, err)
		}
		net.got = nil
		var got []byte
		err = h.Try(func() (err error) { got, err = links[0].Get(ctx); return })
		desc := fmt.Sprintf("file %q, content %s, status %d, cut %d", full, short(content), pg.Status, pg.Cut)
		if fails {
			if err == nil || strings.HasPrefix(err.Error(), "PANIC") || len(got) > 0 {
				c.Fatalf("%s: got %s, %v", desc, short(got), err)
			}
			var he *pep503.HTTPError
			if wantCode != 0 && (!errors.As(err, &he) || he.StatusCode != wantCode) {
				c.Fatalf("%s: error is %v", desc, err)
			}
		} else if err != nil || !bytes.Equal(got, content) {
			c.Fatalf("%s: got %s, %v", desc, short(got), err)
		}
		if len(net.got) == 0 || net.got[0] != "GET "+fileURL.String() {
			c.Fatalf("%s: requests were %v, want %s", desc, net.got, fileURL)
		}
		// the signature
		net.got = nil
		err = h.Try(func() (err error) { got, err = links[0].GetSignature(ctx); return })
		switch {
		case sig == "false":
			if !errors.Is(err, pep503.ErrNoSignature) || len(net.got) != 0 {
				c.Fatalf("signature of a file that has none: %q, %v, requests %v", got, err, net.got)
			}
		case sigStatus == 200:
			if err != nil || !bytes.Equal(got, sigContent) {
				c.Fatalf("%s: signature: %q, %v, requests %v", desc, got, err, net.got)
			}
		case sigStatus == 404 && sig == "":
			if !errors.Is(err, pep503.ErrNoSignature) {
				c.Fatalf("%s: missing signature: %q, %v", desc, got, err)
			}
		default:
			if err == nil || errors.Is(err, pep503.ErrNoSignature) {
				c.Fatalf("%s: signature with status %d: %q, %v", desc, sigStatus, got, err)
			}
		}
		for _, ua := range net.ua {
			if (client.UserAgent != "" && ua != client.UserAgent) || ua == "" {
				c.Fatalf("user agent %q", ua)
			}
		}
		if net.open != 0 {
			c.Fatalf("%s: %d response bodies left open", desc, net.open)
		}
		c.LabelIf(bad, "hash mismatch")
		c.LabelIf(fails && !bad, "other failure")
		c.LabelIf(!fails, "good")
		if checked || fails {
			c.Nontrivial(desc)
		}
	})

	p.Run("page", 24000, 300000, func(c *h.C) {
		var links []anchor
		for n := h.Size(c.T, "n", 0, 5, 15, 100); len(links) < n; {
			a := anchor{Text: h.Pick(c.T, "text", "a-1.whl", "b & c.whl", "x<y>.tar.gz", "ünï.whl", "foo-1.0+x.whl", "a\"b"), HRef: h.Pick(c.T, "href", "a.whl", "../x/a.whl", "/r/a.whl#sha256=00", "http://o.test/y?q=1&r=2#md5=0", "//o.test/z", "a%20b.whl", "?q", "a/b/../c.whl")}
			if rapid.Bool().Draw(c.T, "req") {
				a.Attrs = append(a.Attrs, [2]string{"data-requires-python", h.Pick(c.T, "reqv", ">=3.6", ">=2.7,<4", "", "&lt;", "!=3.0")})
			}
			if rapid.Bool().Draw(c.T, "yank") {
				a.Attrs = append(a.Attrs, [2]string{"data-yanked", h.Pick(c.T, "reason", "", "it's \"broken\"", "a&b")})
			}
			if rapid.Bool().Draw(c.T, "other") {
				a.Attrs = append(a.Attrs, [2]string{h.Pick(c.T, "attr", "data-x", "data-gpg-sig", "class", "id"), "v"})
			}
			links = append(links, a)
		}
		meta := h.Pick(c.T, "meta", "", "1.0", "1.0", "1.1", "1", "1.9", "2.0", "2", "3.1", "10.0", "0.9", "1!2.0")
		body := render(c.T, links, meta)
		newer := meta == "2.0" || meta == "2" || meta == "3.1" || meta == "10.0" || meta == "1!2.0"
		base := h.Pick(c.T, "base", "http://pypi.test/simple/", "http://pypi.test/simple", "https://h.test:8080/a/b/", "http://h.test/")
		name := rapid.StringMatching(`[A-Za-z0-9]([-_.]{0,3}[A-Za-z0-9]){0,4}`).Draw(c.T, "name")
		var norm struct{ S string }
		ask(map[string]interface{}{"op": "name", "s": name}, &norm)
		root, _ := url.Parse(base)
		where := *root
		where.Path = path.Join(where.Path, norm.S) + "/"
		final := where.String()
		pages := map[string]page{}
		if rapid.Bool().Draw(c.T, "moved") {
			pages[where.String()] = page{Status: 301, Location: "http://mirror.test/a/b/foo/"}
			final = "http://mirror.test/a/b/foo/"
		}
		status := h.Pick(c.T, "status", 200, 200, 200, 200, 200, 404, 500)
		pages[final] = page{Status: status, Body: body}
		net := &fakeNet{pages: pages}
		client := newClient(net)
		client.BaseURL = base
		got, err := client.ListPackageFiles(quiet(), name)
		desc := fmt.Sprintf("%s of %s: %s", name, base, body)
		if newer || status != 200 {
			var he *pep503.HTTPError
			if err == nil || (status != 200 && (!errors.As(err, &he) || he.StatusCode != status)) {
				c.Fatalf("%s: got %v, %v", desc, got, err)
			}
			c.Nontrivial(desc)
			return
		}
		if err != nil {
			c.Fatalf("%s: %v", desc, err)
		}
		if len(got) != len(links) {
			c.Fatalf("%s: got %d links, want %d", desc, len(got), len(links))
		}
		// where the page is, as the client asked for it
		var at *url.URL
		if final == where.String() {
			at, err = url.Parse(strings.TrimPrefix(net.got[0], "GET "))
			h.Must(err)
			if strings.TrimSuffix(at.String(), "/") != strings.TrimSuffix(where.String(), "/") {
				c.Fatalf("asked for %s, want %s", at, where.String())
			}
		} else {
			at, _ = url.Parse(final)
		}
		for i, l := range got {
			ref, err := at.Parse(links[i].HRef)
			h.Must(err)
			if l.Text != links[i].Text || l.HRef != ref.String() {
				c.Fatalf("%s: link %d is %q %q, want %q %q", desc, i, l.Text, l.HRef, links[i].Text, ref)
			}
			n := 0
			for _, a := range links[i].Attrs {
				if strings.HasPrefix(a[0], "data-") {
					n++
					if v, ok := l.DataAttrs[a[0]]; !ok || v != a[1] {
						c.Fatalf("%s: link %d: %s is %q, want %q", desc, i, a[0], v, a[1])
					}
				}
			}
			if n != len(l.DataAttrs) {
				c.Fatalf("%s: link %d has attributes %v", desc, i, l.DataAttrs)
			}
		}
		if len(links) >= 2 {
			c.Nontrivial(desc)
		}
	})

	// all packages, and a package's files from there
	p.Run("packages", 8000, 90000, func(c *h.C) {
		names := rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"foo", "bar", "baz-qux", "x"}), 0, 4, rapid.ID[string]).Draw(c.T, "names")
		pages := map[string]page{}
		var links []anchor
		for _, n := range names {
			links = append(links, anchor{Text: n, HRef: h.Pick(c.T, "style", n+"/", "/simple/"+n+"/", "./"+n+"/")})
			pages["http://pypi.test/simple/"+n+"/"] = page{Status: 200, Body: render(c.T, []anchor{{Text: n + "-1.whl", HRef: n + "-1.whl"}}, "")}
			pages["http://pypi.test/simple/"+n+"/"+n+"-1.whl"] = page{Status: 200, Body: []byte("content of " + n)}
		}
		pages["http://pypi.test/simple/"] = page{Status: 200, Body: render(c.T, links, "")}
		net := &fakeNet{pages: pages}
		client := newClient(net)
		if h.OneIn(c.T, "broken", 4) && len(names) > 0 {
			// the list of packages, or a package's page, or a file is broken
			spot := h.Pick(c.T, "spot", "", names[0]+"/", names[0]+"/"+names[0]+"-1.whl")
			u := "http://pypi.test/simple/" + spot
			pg := pages[u]
			what := h.Pick(c.T, "fault", "status", "cut", "lost", "newer")
			switch {
			case what == "status":
				pg.Status = h.Pick(c.T, "status", 404, 500, 403, 304)
			case what == "cut":
				pg.Cut = h.Int(c.T, "cut", 1, len(pg.Body))
			case what == "newer" && !strings.HasSuffix(spot, ".whl"):
				pg.Body = render(c.T, links, "2.0")
			default:
				pg.Err = errors.New("no route to host")
			}
			pages[u] = pg
			desc := fmt.Sprintf("%s of /%s of %v", what, spot, names)
			pkgs, err := client.ListPackages(quiet())
			if (err != nil) != (spot == "") || err != nil && len(pkgs) > 0 {
				c.Fatalf("%s: listing packages gives %v, %v", desc, pkgs, err)
			}
			if err == nil {
				files, err := pkgs[0].ListFiles(quiet())
				if (err != nil) != strings.HasSuffix(spot, "/") || err != nil && len(files) > 0 {
					c.Fatalf("%s: listing files gives %v, %v", desc, files, err)
				}
				if err == nil {
					if got, err := files[0].Get(quiet()); err == nil || len(got) > 0 {
						c.Fatalf("%s: the file is %q, %v", desc, got, err)
					}
				}
			}
			if net.open != 0 {
				c.Fatalf("%s: %d response bodies left open", desc, net.open)
			}
			c.Label("broken index")
			c.Nontrivial(desc)
			return
		}
		pkgs, err := client.ListPackages(quiet())
		if err != nil || len(pkgs) != len(names) {
			c.Fatalf("packages %v: %v, %v", names, pkgs, err)
		}
		for i, pkg := range pkgs {
			if pkg.Text != names[i] {
				c.Fatalf("package %d is %q, want %q", i, pkg.Text, names[i])
			}
			files, err := pkg.ListFiles(quiet())
			if err != nil || len(files) != 1 {
				c.Fatalf("files of %s: %v, %v", names[i], files, err)
			}
			got, err := files[0].Get(quiet())
			if err != nil || string(got) != "content of "+names[i] {
				c.Fatalf("content of %s: %q, %v", names[i], got, err)
			}
		}
		if len(names) > 1 {
			c.Nontrivial(fmt.Sprint(links))
		}
	})

	p.Run("badname", 4000, 30000, func(c *h.C) {
		name := rapid.StringMatching(`[A-Za-z0-9]{0,3}`).Draw(c.T, "a") + h.Pick(c.T, "bad", "/", "../", "?", "#", " ", "%2e", "é", "\x00", "@", ":", "\\", "&", "\n", "/..", "٣") + rapid.StringMatching(`[A-Za-z0-9]{0,3}`).Draw(c.T, "b")
		net := &fakeNet{pages: map[string]page{}}
		client := newClient(net)
		got, err := client.ListPackageFiles(quiet(), name)
		if err == nil || len(net.got) > 0 {
			c.Fatalf("package %q: %v, %v, requests %v", name, got, err, net.got)
		}
		c.Nontrivial(name)
	})

	p.Run("getwheel", 120, 1600, func(c *h.C) {
		content := genContent(c.T)
		frag, bad, _ := genFragment(c.T, content)
		name := h.Pick(c.T, "name", "Foo.Bar-1.0-py3-none-any.whl", "foo_bar-1.0-1-py3-none-any.whl", "foo_bar-1.0+l-py2.py3-none-any.whl")
		absent := h.OneIn(c.T, "absent", 6)
		status := h.Pick(c.T, "status", 200, 200, 200, 200, 200, 404, 500)
		idxStatus := h.Pick(c.T, "idxstatus", 200, 200, 200, 200, 200, 200, 404, 500)
		meta := h.Pick(c.T, "meta", "", "1.0", "1.1", "2.0")
		links := []anchor{{Text: "foo_bar-0.9-py3-none-any.whl", HRef: "/files/other"}, {Text: strings.ToUpper(name), HRef: "/files/other"}}
		if !absent {
			l := anchor{Text: name, HRef: "/files/wheel"}
			if frag != "" {
				l.HRef += "#" + frag
			}
			i := h.Int(c.T, "at", 0, len(links))
			links = append(links[:i:i], append([]anchor{l}, links[i:]...)...)
		}
		idx := render(c.T, links, meta)
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			switch r.URL.Path {
			case "/simple/foo-bar", "/simple/foo-bar/":
				w.WriteHeader(idxStatus)
				_, _ = w.Write(idx)
			case "/files/wheel":
				w.WriteHeader(status)
				_, _ = w.Write(content)
			case "/files/other":
				_, _ = w.Write([]byte("another file"))
			default:
				w.WriteHeader(404)
			}
		}))
		defer srv.Close()
		cmd := exec.Command(h.CLI(), "python", "getwheel", "--index-server="+srv.URL+"/simple/", name)
		cmd.Env = []string{"HOME=/nonexistent", "PATH=/nonexistent"}
		cmd.Dir = "/"
		var out, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &stderr
		h.Must(cmd.Start())
		timer := time.AfterFunc(100*time.Second, func() { _ = cmd.Process.Kill() })
		err := cmd.Wait()
		timer.Stop()
		desc := fmt.Sprintf("%s with hashes %q, absent %v, status %d/%d, version %q", name, frag, absent, idxStatus, status, meta)
		if absent || bad || status != 200 || idxStatus != 200 || meta == "2.0" {
			var ee *exec.ExitError
			if err == nil || !errors.As(err, &ee) || ee.ExitCode() != 1 || out.Len() > 0 || stderr.Len() == 0 {
				c.Fatalf("%s: %v, stdout %q, stderr %q", desc, err, out.Bytes(), stderr.String())
			}
		} else if err != nil || !bytes.Equal(out.Bytes(), content) {
			c.Fatalf("%s: %v, stdout %s, want %s, stderr %q", desc, err, short(out.Bytes()), short(content), stderr.String())
		}
		c.Nontrivial(desc)
	})
}
