package pychk

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"
	"testing/iotest"

	"pgregory.net/rapid"

	"github.com/datawire/ocibuild/pkg/python"
	"verif.local/harness/h"
)

type cfgOpts struct {
	Delims, Comments, Inline []string
	Strict, Empty, Case      bool
}

func (o cfgOpts) parser() *python.ConfigParser {
	p := python.NewConfigParser()
	p.Delimiters, p.CommentPrefixes, p.InlineCommentPrefixes = o.Delims, o.Comments, o.Inline
	p.Strict, p.EmptyLinesInValues = o.Strict, o.Empty
	if o.Case {
		p.OptionTransform = func(s string) string { return s }
	}
	return p
}

func genCfgOpts(t *rapid.T) cfgOpts {
	o := cfgOpts{
		Delims:   h.Pick(t, "delims", []string{"=", ":"}, []string{"=", ":"}, []string{"="}, []string{":", "="}, []string{"->", "="}, []string{"==", "="}),
		Comments: h.Pick(t, "comments", []string{"#", ";"}, []string{"#", ";"}, []string{"#"}, []string{"//", "#"}, []string{}),
		Inline:   h.Pick(t, "inline", []string{}, []string{}, []string{"#"}, []string{";"}, []string{"#", ";"}, []string{"//"}),
		Strict:   h.Weighted(t, "strict", 1, 2) > 0,
		Empty:    h.Weighted(t, "empty", 1, 2) > 0,
		Case:     rapid.Bool().Draw(t, "case"),
	}
	return o
}

func cfgLine(t *rapid.T) string {
	ws := func(l string) string {
		s := h.Pick(t, l, "", "", "", " ", "  ", "    ", "\t", " \t")
		if h.OneIn(t, l+" more", 8) {
			s += strings.Repeat(" ", h.Int(t, l+" far", 0, 14))
		}
		return s
	}
	word := func(l string) string {
		return h.Pick(t, l, "a", "b", "A", "key", "Key", "a b", "k.y", "x-1", "v", "", "[x]", "a#b", "#", ";c", "é", "x;y", "//", "=", ":", "main:f [extra]")
	}
	delim := func() string { return h.Pick(t, "d", "=", "=", " = ", ":", " : ", "==", "->", "= ", " =") }
	var l string
	switch h.Weighted(t, "line", 5, 10, 5, 3, 3, 1) {
	case 0:
		l = ws("ind") + "[" + h.Pick(t, "sect", "s", "s", "t", "S", "console_scripts", "a]b", "", " ", "x=y", "#", "[", "]", " s ", "é") + "]" + h.Pick(t, "after", "", "", "", " # c", "x", " ", "]", " ; c", "=v")
	case 1:
		k := word("k")
		if h.Weighted(t, "uniq", 1, 2) > 0 {
			k = fmt.Sprintf("%s%d", k, h.Int(t, "num", 0, 99))
		}
		l = ws("ind") + k + delim() + word("v") + h.Pick(t, "tail", "", "", "", " ", " # c", " ;c", "#c", "=y", " a:b")
	case 2:
		l = h.Pick(t, "ind2", " ", "  ", "\t", "    ", "")
		if h.OneIn(t, "ind2 more", 3) {
			l += strings.Repeat(" ", h.Int(t, "ind2 far", 0, 14))
		}
		l += word("v")
		if h.OneIn(t, "long", 60) {
			l += strings.Repeat(h.Pick(t, "pad", "long ", "x", " ", "é"), h.Pick(t, "times", 800, 4090, 4096, 5000))
		}
	case 3:
		l = h.Pick(t, "blank", "", "", " ", "\t", "     ", "\r", "\v", "\f")
	case 4:
		l = ws("ind") + h.Pick(t, "com", "#", ";", "//", "# x", "; k=v", "#[s]", ";;", "# a = b")
	case 5:
		l = rapid.StringMatching(`[ \t\[\]=:#;a-cA-C]{0,12}`).Draw(t, "any")
	}
	return l
}

// pythonQuirk is whether CPython might stop looking at comment prefixes early:
// it takes the first pass in which any prefix starts a comment, even if another
// prefix starts one further to the left.
func pythonQuirk(text string, inline []string) bool {
	if len(inline) < 2 {
		return false
	}
	for _, l := range strings.Split(text, "\n") {
		for _, p := range inline {
			if i := strings.Index(l, p); i > 0 && !strings.ContainsAny(l[i-1:i], " \t\r\v\f") {
				return true
			}
		}
	}
	return false
}

func TestC27(t *testing.T) {
	p := h.Start(t, "C27", "the file has at least two options and a continuation line, comment or repeated name, or must be refused")
	p.Assume("whitespace is ASCII; there is no section named DEFAULT; files on which CPython's handling of several inline comment prefixes depends on their order are left out")

	p.Run("python", 24000, 400000, func(c *h.C) {
		o := genCfgOpts(c.T)
		var lines []string
		if h.Weighted(c.T, "header", 1, 5) > 0 {
			lines = append(lines, "[s]")
		}
		for n := h.Size(c.T, "n", 0, 9, 20, 60); n > 0; n-- {
			lines = append(lines, cfgLine(c.T))
		}
		eol := h.Pick(c.T, "eol", "\n", "\n", "\n", "\r\n")
		text := strings.Join(lines, eol)
		if rapid.Bool().Draw(c.T, "final") {
			text += eol
		}
		if pythonQuirk(text, o.Inline) {
			c.Label("left out")
			return
		}
		var want struct {
			OK  bool
			Err string
			Cfg map[string]map[string]string
		}
		ask(map[string]interface{}{"op": "config", "delims": o.Delims, "comments": o.Comments, "inline": o.Inline, "strict": o.Strict, "empty": o.Empty, "case": o.Case, "text": text}, &want)
		if _, ok := want.Cfg["DEFAULT"]; ok {
			return
		}
		var got python.Config
		err := h.Try(func() (err error) { got, err = o.parser().Parse(strings.NewReader(text)); return })
		desc := fmt.Sprintf("%+v %q", o, text)
		nopt := 0
		if !want.OK {
			if err == nil || strings.HasPrefix(err.Error(), "PANIC") {
				c.Fatalf("%s: got %q, %v; Python says %s", desc, got, err, want.Err)
			}
			c.Label("refused")
			c.Nontrivial(desc)
		} else {
			if err != nil {
				c.Fatalf("%s: %v; Python has %q", desc, err, want.Cfg)
			}
			plain := map[string]map[string]string{}
			for s, kv := range got {
				plain[s] = map[string]string{}
				for k, v := range kv {
					plain[s][k] = v
					nopt++
				}
			}
			if want.Cfg == nil {
				want.Cfg = map[string]map[string]string{}
			}
			if !reflect.DeepEqual(plain, want.Cfg) {
				c.Fatalf("%s: got %q, Python has %q", desc, plain, want.Cfg)
			}
			if nopt >= 2 {
				c.Nontrivial(desc)
			}
		}
		// it does not matter in which pieces the file arrives, nor what
		// else the parser has parsed
		parser := o.parser()
		_, _ = parser.Parse(strings.NewReader("[zz]\nq=1\n"))
		again, err2 := parser.Parse(iotest.OneByteReader(strings.NewReader(text)))
		if (err == nil) != (err2 == nil) || (err == nil && !reflect.DeepEqual(got, again)) {
			c.Fatalf("%s: byte by byte: %q, %v", desc, again, err2)
		}
	})

	p.Run("faults", 3000, 30000, func(c *h.C) {
		o := genCfgOpts(c.T)
		lines := []string{"[s]"}
		values := map[string]string{}
		for n := h.Int(c.T, "n", 0, 5); n > 0; n-- {
			v := fmt.Sprintf("v%d", n)
			if n > 1 && h.OneIn(c.T, "other", 3) {
				v = h.Pick(c.T, "value", "", "%(k1)s", "${s:k1}", "%%", "v1 v1")
			}
			values[fmt.Sprintf("k%d", n)] = v
			lines = append(lines, fmt.Sprintf("k%d = %s", n, v))
		}
		text := strings.Join(lines, "\n") + "\n"
		cut := h.Int(c.T, "cut", 0, len(text))
		broken := errors.New("broken pipe")
		got, err := o.parser().Parse(io.MultiReader(strings.NewReader(text[:cut]), iotest.ErrReader(broken)))
		if !errors.Is(err, broken) {
			// (the part that was read may be refused first)
			if err == nil {
				c.Fatalf("reading fails after %q: got %q", text[:cut], got)
			}
		}
		// interpolation sees and replaces each value
		parser := o.parser()
		bad := h.OneIn(c.T, "bad", 3)
		parser.Interpolate = func(cfg python.Config, v string) (string, error) {
			if _, ok := cfg["s"]; !ok {
				return "", errors.New("no section")
			}
			if bad && v == "v1" {
				return "", broken
			}
			return "<" + v + ">", nil
		}
		if len(o.Delims) > 0 && o.Delims[len(o.Delims)-1] == "=" || o.Delims[0] == "=" {
			got, err = parser.Parse(strings.NewReader(text))
			if bad && len(lines) > 1 {
				if !errors.Is(err, broken) {
					c.Fatalf("interpolation fails, got %q, %v", got, err)
				}
			} else {
				if err != nil {
					c.Fatalf("%q: %v", text, err)
				}
				for k, w := range values {
					if v := got["s"][k]; v != "<"+w+">" {
						c.Fatalf("%q: %s interpolated is %q", text, k, v)
					}
				}
			}
		}
		if len(lines) > 2 {
			c.Nontrivial(fmt.Sprintf("%q %d %v", text, cut, bad))
		}
	})
}
