package pychk

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"errors"
	"fmt"
	"html"
	"io"
	"net/http"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"verif.local/harness/h"
)

// page is what the simulated server says for a URL.
type page struct {
	Status   int
	Location string // for redirects
	Body     []byte
	Cut      int   // if positive, the connection breaks after so many bytes
	Err      error // the connection fails
}

// fakeNet is an http.RoundTripper that answers from memory.
type fakeNet struct {
	mu    sync.Mutex
	pages map[string]page // by URL without fragment
	got   []string
	ua    []string
	open  int
}

var errCut = errors.New("connection lost")

type body struct {
	io.Reader
	net *fakeNet
}

func (b *body) Close() error {
	b.net.mu.Lock()
	b.net.open--
	b.net.mu.Unlock()
	return nil
}

func (n *fakeNet) RoundTrip(req *http.Request) (*http.Response, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	u := *req.URL
	u.Fragment = ""
	u.RawFragment = ""
	key := u.String()
	n.got = append(n.got, req.Method+" "+key)
	n.ua = append(n.ua, req.Header.Get("User-Agent"))
	pg, ok := n.pages[key]
	if !ok {
		// a project's page may be asked for with or without the slash
		if pg, ok = n.pages[key+"/"]; !ok {
			pg, ok = n.pages[strings.TrimSuffix(key, "/")]
		}
	}
	if !ok {
		pg = page{Status: 404, Body: []byte("not found")}
	}
	if pg.Err != nil {
		return nil, pg.Err
	}
	hdr := http.Header{"Content-Type": {"text/html"}}
	if pg.Location != "" {
		hdr.Set("Location", pg.Location)
	}
	var rd io.Reader = bytes.NewReader(pg.Body)
	if pg.Cut > 0 && pg.Cut <= len(pg.Body) {
		rd = io.MultiReader(bytes.NewReader(pg.Body[:pg.Cut-1]), failing{})
	}
	n.open++
	return &http.Response{
		Status: fmt.Sprintf("%d %s", pg.Status, http.StatusText(pg.Status)), StatusCode: pg.Status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: hdr, Body: &body{rd, n}, ContentLength: -1, Request: req,
	}, nil
}

type failing struct{}

func (failing) Read([]byte) (int, error) { return 0, errCut }

// anchor is one link of an index page.
type anchor struct {
	Text  string
	HRef  string
	Attrs [][2]string // in order
}

func sumOf(alg string, content []byte) string {
	switch alg {
	case "md5":
		s := md5.Sum(content)
		return hex.EncodeToString(s[:])
	case "sha1":
		s := sha1.Sum(content)
		return hex.EncodeToString(s[:])
	case "sha224":
		s := sha256.Sum224(content)
		return hex.EncodeToString(s[:])
	case "sha256":
		s := sha256.Sum256(content)
		return hex.EncodeToString(s[:])
	case "sha384":
		s := sha512.Sum384(content)
		return hex.EncodeToString(s[:])
	case "sha512":
		s := sha512.Sum512(content)
		return hex.EncodeToString(s[:])
	}
	panic(alg)
}

// render writes the page in one of several styles.
func render(t *rapid.T, links []anchor, meta string) []byte {
	var s strings.Builder
	full := meta != "" || rapid.Bool().Draw(t, "full")
	if full {
		s.WriteString("<!DOCTYPE html>\n<html>\n<head>\n")
		if meta != "" {
			fmt.Fprintf(&s, "<meta name=\"pypi:repository-version\" content=\"%s\">\n", html.EscapeString(meta))
		}
		if rapid.Bool().Draw(t, "othermeta") {
			s.WriteString("<meta name=\"viewport\" content=\"7.5\">\n<meta charset=\"utf-8\">")
		}
		s.WriteString("<title>Links</title></head><body><h1>Links</h1>\n")
	}
	for _, l := range links {
		wrap := h.Int(t, "wrap", 0, 3)
		if wrap == 1 {
			s.WriteString("<div><p>")
		}
		if h.OneIn(t, "comment", 8) {
			s.WriteString("<!-- <a href=\"no\">no</a> -->")
		}
		s.WriteString("<a")
		attrs := append([][2]string{{"href", l.HRef}}, l.Attrs...)
		if rapid.Bool().Draw(t, "rel") {
			attrs = append(attrs, [2]string{"rel", "internal"})
		}
		for i := len(attrs) - 1; i > 0; i-- {
			j := h.Int(t, "order", 0, i)
			attrs[i], attrs[j] = attrs[j], attrs[i]
		}
		for _, a := range attrs {
			if a[1] == "" && rapid.Bool().Draw(t, "bare") {
				s.WriteString(" " + a[0])
				continue
			}
			v := html.EscapeString(a[1])
			if !strings.ContainsAny(a[1], "<\"'") && rapid.Bool().Draw(t, "raw") {
				v = strings.ReplaceAll(a[1], "&", "&amp;")
			}
			fmt.Fprintf(&s, " %s=\"%s\"", a[0], v)
		}
		s.WriteString(">")
		text := html.EscapeString(l.Text)
		if h.OneIn(t, "bold", 6) && len(l.Text) > 2 {
			text = "<b>" + html.EscapeString(l.Text[:2]) + "</b>" + html.EscapeString(l.Text[2:])
		}
		s.WriteString(text)
		s.WriteString("</a>")
		if wrap == 1 {
			s.WriteString("</p></div>")
		}
		s.WriteString(h.Pick(t, "br", "<br/>\n", "\n", "", "<br>"))
	}
	if full {
		s.WriteString("</body>\n</html>\n")
	}
	return []byte(s.String())
}
