package clichk

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"unsafe"

	"github.com/spf13/cobra"
	"pgregory.net/rapid"

	"github.com/datawire/ocibuild/pkg/cliutil"
	"verif.local/harness/h"
)

// genProse is words, with spaces and line breaks between them.
func genProse(t *rapid.T, maxWord int) string {
	var b strings.Builder
	for n := h.Weighted(t, "nwords", 1, 1, 1, 1)*h.Int(t, "k", 1, 25) + h.Int(t, "more", 0, 3); n > 0; n-- {
		l := h.Int(t, "wl", 1, 9)
		if h.OneIn(t, "long", 12) {
			l = h.Int(t, "long", 8, maxWord)
		}
		if h.OneIn(t, "uni", 10) {
			b.WriteString(strings.Repeat("é", (l+1)/2))
		} else {
			for i := 0; i < l; i++ {
				b.WriteByte("abcdefghijklmnopqrstuvwxyz-.,`%"[h.Int(t, "ch", 0, 30)])
			}
		}
		if n > 1 || h.OneIn(t, "trail", 6) {
			b.WriteString(h.Pick(t, "sep", " ", " ", " ", " ", " ", " ", "  ", "\n", "\n\n", "\n    ", "\t"))
		}
	}
	return b.String()
}

// gaps counts the line breaks before every word.
func gaps(s string) []int {
	var ret []int
	n, inWord := 0, false
	for _, r := range s {
		switch {
		case r == '\n':
			n++
			inWord = false
		case r == ' ' || r == '\t':
			inWord = false
		case !inWord:
			ret = append(ret, n)
			n, inWord = 0, true
		}
	}
	return ret
}

// checkWrapped judges what WrapIndent(i, w, s) gave; "" is fine.
func checkWrapped(i, w int, s, out string) string {
	in, got := strings.Fields(s), strings.Fields(out)
	if strings.Join(in, " ") != strings.Join(got, " ") {
		return "the words are not those of the text"
	}
	// line breaks of the text stay, however many there are
	a, b := gaps(s), gaps(out)
	for k := range in {
		if k < len(b) && b[k] < a[k] {
			return fmt.Sprintf("%d of %d line breaks before word %d (%q)", b[k], a[k], k, in[k])
		}
	}
	lines := strings.Split(out, "\n")
	area := w - i
	if w == 0 {
		if want := strings.ReplaceAll(s, "\n", "\n"+strings.Repeat(" ", i)); out != want {
			return fmt.Sprintf("width 0 is no wrapping, want %q", want)
		}
		return ""
	}
	ind := i
	if area < 24 {
		ind, area = 16, w-16
	}
	for k, l := range lines {
		if k > 0 && !strings.HasPrefix(l, strings.Repeat(" ", ind)) {
			return fmt.Sprintf("line %d %q is not indented by %d", k, l, ind)
		}
	}
	// breaks of the text stay: no line has words from both sides of one
	n := 0
	breakAfter := map[int]bool{}
	for _, l := range strings.Split(s, "\n") {
		n += len(strings.Fields(l))
		breakAfter[n] = true
	}
	n = 0
	for _, l := range lines {
		for k := 1; k < len(strings.Fields(l)); k++ {
			if breakAfter[n+k] {
				return fmt.Sprintf("line %q joins lines of the text", l)
			}
		}
		n += len(strings.Fields(l))
	}
	if area < 24 {
		if len(lines) != strings.Count(s, "\n")+1 {
			return "too narrow for wrapping, and wrapped nevertheless"
		}
		return ""
	}
	fits := true
	longest := 0
	for _, l := range strings.Split(s, "\n") {
		// A run of white space may stand at the start of a line.
		for _, f := range strings.Split(strings.ReplaceAll(l, "\t", " "), " ") {
			if len(f) > longest {
				longest = len(f)
			}
		}
	}
	if longest > area-5-6 {
		fits = false
	}
	if fits {
		for k, l := range lines {
			max := w
			if k == 0 && ind == i {
				max = w - i // the caller has written the indentation already
			} else if k == 0 {
				max = 0 // the text starts on a line of its own
			}
			if len(l) > max {
				return fmt.Sprintf("line %d %q is %d wide", k, l, len(l))
			}
		}
	}
	// no needless breaks: what fits on one line stays there
	if !strings.Contains(s, "\n") && len(s) < area && len(strings.TrimSuffix(strings.TrimPrefix(out, "\n"+strings.Repeat(" ", 16)), " ")) != len(strings.TrimSuffix(s, " ")) {
		return "it would have fit on one line"
	}
	return ""
}

func TestC32(t *testing.T) {
	p := h.Start(t, "C32", "a text of at least 5 words that takes more than one line at a width at which it can be wrapped (part wrap), a command with subcommands and flags, or any invocation of the binary (the other parts)")
	p.Assume("widths count bytes; lines with a word that is longer than the space for text are not judged; the first line of an indented text is preceded by what the caller wrote")
	p.Run("wrap", 150000, 1500000, func(c *h.C) {
		s := genProse(c.T, 30)
		w := h.Pick(c.T, "w", 0, 0, 20, 24, 39, 40, 41, 44, 45, 60, 72, 79, 80, 81, 100, 132, 200, h.Int(c.T, "anyw", 1, 120), -1, -80, 1<<31)
		i := h.Pick(c.T, "i", 0, 0, 0, 2, 8, 16, 20, 30, 56, 57)
		out := ""
		if err := h.Try(func() error {
			if i == 0 {
				out = cliutil.Wrap(w, s)
			} else {
				out = cliutil.WrapIndent(i, w, s)
			}
			return nil
		}); err != nil {
			c.Fatalf("WrapIndent(%d, %d, %q): %v", i, w, s, err)
		}
		if d := checkWrapped(i, w, s, out); d != "" {
			c.Fatalf("WrapIndent(%d, %d, %q) = %q: %s", i, w, s, out, d)
		}
		if len(strings.Fields(s)) >= 5 && strings.Count(out, "\n") > strings.Count(s, "\n") {
			c.Nontrivial(fmt.Sprintf("%d %d %q", i, w, s))
		}
	})

	p.Run("command", 15000, 150000, func(c *h.C) {
		noop := func(*cobra.Command, []string) error { return nil }
		name := func(l string) string {
			n := h.Int(c.T, l, 2, 10)
			if h.OneIn(c.T, "longname", 6) {
				n = h.Int(c.T, l, 11, 30)
			}
			b := make([]byte, n)
			for k := range b {
				b[k] = "abcdefghij"[h.Int(c.T, "ch", 0, 9)]
			}
			return string(b)
		}
		// one line, in which nothing looks like a flag
		one := func(s string) string {
			for strings.Contains(s, "--") {
				s = strings.ReplaceAll(s, "--", "-.")
			}
			return strings.Join(strings.Fields(s), " ")
		}
		cmd := &cobra.Command{Use: name("use") + " [flags] ARGS_HERE", RunE: noop}
		cmd.CompletionOptions.DisableDefaultCmd = true
		if !h.OneIn(c.T, "noshort", 4) {
			cmd.Short = one(genProse(c.T, 12))
		}
		if !h.OneIn(c.T, "nolong", 3) {
			cmd.Long = genProse(c.T, 20)
		}
		if h.OneIn(c.T, "aliases", 5) {
			for n := h.Int(c.T, "naliases", 1, 3); n > 0; n-- {
				cmd.Aliases = append(cmd.Aliases, name("alias"))
			}
		}
		if h.OneIn(c.T, "ex", 4) {
			cmd.Example = "  " + one(genProse(c.T, 8))
		}
		type item struct {
			name, text string
			hidden     bool
		}
		var flags, subs, globals, topics []item
		seen := map[string]bool{"help": true, "completion": true, cmd.Name(): true}
		for n := h.Int(c.T, "nflags", 0, 4); n > 0; n-- {
			it := item{name("flag"), one(strings.ReplaceAll(genProse(c.T, 12), "`", "")), h.OneIn(c.T, "hidden", 5)}
			if seen[it.name] {
				continue
			}
			seen[it.name] = true
			set := cmd.Flags()
			if h.OneIn(c.T, "persistent", 3) {
				set = cmd.PersistentFlags()
			}
			if rapid.Bool().Draw(c.T, "bool") {
				set.Bool(it.name, false, it.text)
			} else {
				set.String(it.name, "", it.text)
			}
			if it.hidden {
				h.Must(set.MarkHidden(it.name))
			}
			flags = append(flags, it)
		}
		// the command may be a subcommand of one that has flags for it
		root := cmd
		if h.OneIn(c.T, "parent", 3) {
			root = &cobra.Command{Use: name("root") + " [flags]", RunE: noop}
			seen[root.Name()] = true
			root.CompletionOptions.DisableDefaultCmd = true
			for n := h.Int(c.T, "nglobals", 0, 3); n > 0; n-- {
				it := item{name("global"), one(strings.ReplaceAll(genProse(c.T, 12), "`", "")), h.OneIn(c.T, "hidden", 5)}
				if seen[it.name] {
					continue
				}
				seen[it.name] = true
				root.PersistentFlags().Bool(it.name, false, it.text)
				if it.hidden {
					h.Must(root.PersistentFlags().MarkHidden(it.name))
				}
				globals = append(globals, it)
			}
			root.AddCommand(cmd)
		}
		for n := h.Int(c.T, "nsubs", 0, 3); n > 0; n-- {
			it := item{name("sub"), one(genProse(c.T, 12)), h.OneIn(c.T, "hidden", 5)}
			if seen[it.name] {
				continue
			}
			seen[it.name] = true
			sub := &cobra.Command{Use: it.name + " [flags]", Short: it.text, RunE: noop, Hidden: it.hidden}
			if h.OneIn(c.T, "group", 5) && !it.hidden {
				// nothing but a group of commands
				sub.RunE = nil
				sub.AddCommand(&cobra.Command{Use: name("subsub"), RunE: noop})
			}
			cmd.AddCommand(sub)
			if !it.hidden && h.OneIn(c.T, "topic", 6) && sub.RunE != nil {
				sub.RunE = nil // nothing but text to read
				topics = append(topics, it)
				continue
			}
			subs = append(subs, it)
		}
		cols := h.Pick(c.T, "cols", "0", "80", "40", "60", "100", "20", "7", "-3", "", "wide", strconv.Itoa(h.Int(c.T, "w", 41, 150)))
		w, _ := strconv.Atoi(cols) // standard output is no terminal, so otherwise nothing is wrapped
		h.Must(os.Setenv("COLUMNS", cols))
		defer os.Unsetenv("COLUMNS")
		var out bytes.Buffer
		root.SetHelpTemplate(cliutil.HelpTemplate)
		root.SetFlagErrorFunc(cliutil.FlagErrorFunc)
		root.SetOut(&out)
		args := []string{h.Pick(c.T, "h", "--help", "-h")}
		if root != cmd {
			args = append([]string{cmd.Name()}, args...)
		}
		root.SetArgs(args)
		if err := h.Try(func() error { return root.Execute() }); err != nil {
			c.Fatalf("COLUMNS=%s --help: %v", cols, err)
		}
		got := out.String()
		desc := fmt.Sprintf("COLUMNS=%s --help of a command with aliases %q, Short %q, Long %q, flags %v, subcommands %v, global flags %v, topics %v prints\n%s\n", cols, cmd.Aliases, cmd.Short, cmd.Long, flags, subs, globals, topics, got)
		rest := got
		after := func(what, frag string) {
			k := strings.Index(rest, frag)
			if k < 0 {
				c.Fatalf("%s: %s (%q) is missing, or not where it should be", desc, what, frag)
			}
			rest = rest[k+len(frag):]
		}
		after("the usage", "Usage: "+cmd.UseLine())
		if cmd.Short != "" {
			if !strings.HasPrefix(rest, "\n"+cmd.Short+"\n") {
				c.Fatalf("%s: the short description does not follow the usage", desc)
			}
			after("the short description", cmd.Short)
		}
		words := func(what, text string) {
			for _, f := range strings.Fields(text) {
				k := strings.Index(rest, f)
				if k < 0 || strings.TrimSpace(rest[:k]) != "" {
					c.Fatalf("%s: in %s, %q is not next", desc, what, f)
				}
				rest = rest[k+len(f):]
			}
		}
		// a table of names with their texts, which begin in one column and are wrapped there
		column := -1
		entry := func(what, text string) {
			from := rest
			words(what, text)
			if text == "" {
				return
			}
			col := len(from) - len(strings.TrimLeft(from, " ")) + len(got) - len(from) - 1 - strings.LastIndex(got[:len(got)-len(from)], "\n")
			if column >= 0 && col != column {
				c.Fatalf("%s: the text of %s begins in column %d, others in column %d", desc, what, col, column)
			}
			column = col
			if d := checkWrapped(col, w, text, strings.TrimLeft(from[:len(from)-len(rest)], " ")); d != "" {
				c.Fatalf("%s: the text of %s: %s", desc, what, d)
			}
		}
		words("the long description", cmd.Long)
		if cmd.Long != "" {
			want := "Usage: " + cmd.UseLine()
			if cmd.Short != "" {
				want += "\n" + cmd.Short
			}
			want += "\n\n" + strings.TrimRight(cliutil.Wrap(w, cmd.Long), " \t\n\v\f\r")
			if !strings.HasPrefix(got, want+"\n") {
				c.Fatalf("%s: it should begin with\n%s", desc, want)
			}
		}
		if len(cmd.Aliases) > 0 {
			after("the aliases", "\n\nAliases:\n")
			words("the aliases", cmd.Name()+", "+strings.Join(cmd.Aliases, ", "))
		}
		if cmd.Example != "" {
			after("the example's heading", "\n\nExamples:\n")
			words("the example", cmd.Example)
		}
		visible := 0
		for _, it := range subs {
			if !it.hidden {
				visible++
			}
		}
		if root == cmd && visible > 0 {
			subs = append(subs, item{"help", "Help about any command", false})
		}
		if visible > 0 {
			after("the list of commands", "\n\nAvailable Commands:\n")
			pos := len(got) - len(rest)
			for _, it := range subs {
				if it.hidden {
					continue
				}
				rest = got[pos:]
				k := strings.Index("\n"+rest, "\n  "+it.name+" ")
				if k < 0 {
					c.Fatalf("%s: subcommand %s is missing", desc, it.name)
				}
				rest = rest[k+2+len(it.name):]
				entry("subcommand "+it.name, it.text)
				if !strings.HasPrefix(strings.TrimLeft(rest, " "), "\n") {
					c.Fatalf("%s: subcommand %s is followed by %.20q", desc, it.name, rest)
				}
			}
		}
		flagList := func(what string, list []item) {
			column = -1
			pos := len(got) - len(rest)
			for _, it := range list {
				rest = got[pos:]
				k := strings.Index(rest, " --"+it.name+" ")
				if it.text == "" || it.hidden {
					if it.hidden && k >= 0 {
						c.Fatalf("%s: hidden flag %s is listed", desc, it.name)
					}
					continue
				}
				if k < 0 {
					k = strings.Index(rest, " --"+it.name+"\n")
				}
				if k < 0 {
					c.Fatalf("%s: %s %s is missing", desc, what, it.name)
				}
				rest = strings.TrimLeft(rest[k+3+len(it.name):], " ")
				if !strings.HasPrefix(it.text, "string") {
					rest = strings.TrimPrefix(rest, "string")
				}
				entry(what+" "+it.name, it.text)
			}
			rest = got[pos:]
		}
		after("the flags", "\nFlags:\n")
		flagList("flag", append(flags, item{"help", "help for " + cmd.Name(), false}))
		for _, it := range globals {
			if !it.hidden {
				after("the flags of the parent", "\nGlobal Flags:\n")
				break
			}
		}
		flagList("global flag", globals)
		if len(topics) > 0 {
			after("the help topics", "\nAdditional help topics:\n")
		}
		column = -1
		pos := len(got) - len(rest)
		for _, it := range topics {
			rest = got[pos:]
			k := strings.Index("\n"+rest, "\n  "+cmd.CommandPath()+" "+it.name+" ")
			if k < 0 {
				c.Fatalf("%s: help topic %s is missing", desc, it.name)
			}
			rest = rest[k+3+len(cmd.CommandPath())+len(it.name):]
			entry("help topic "+it.name, it.text)
		}
		for _, it := range subs {
			listed := false
			for _, heading := range []string{"\nAvailable Commands:\n", "\nAdditional help topics:\n"} {
				if k := strings.Index(got, heading); k >= 0 {
					list := strings.SplitN(got[k+len(heading)-1:], "\n\n", 2)[0]
					listed = listed || strings.Contains(list+" ", "\n  "+it.name+" ")
				}
			}
			if it.hidden && listed {
				c.Fatalf("%s: hidden subcommand %s is listed", desc, it.name)
			}
		}
		if hint := fmt.Sprintf("Use \"%s [command] --help\"", cmd.CommandPath()); strings.Contains(got, hint) != (visible > 0) {
			c.Fatalf("%s: the hint about --help of subcommands", desc)
		}
		if len(subs) > 0 && len(flags) > 0 {
			c.Nontrivial(desc)
		}
	})

	// The binary: the width only changes white space.
	p.Run("binary", 300, 2000, func(c *h.C) {
		s := newSandbox()
		defer s.done()
		cmd := commands[h.Int(c.T, "cmd", 0, len(commands)-1)]
		args := append(append([]string{}, cmd[:h.Int(c.T, "depth", 0, 2)]...), "--help")
		cols := h.Pick(c.T, "cols", "80", "40", "41", "100", "60", "39", "1", "-1", "999999", "99999999999999999999", "x")
		a := s.run(runOpts{env: []string{"COLUMNS=0"}}, args...)
		b := s.run(runOpts{env: []string{"COLUMNS=" + cols}}, args...)
		if a.rc != 0 || b.rc != 0 || len(a.stderr) != 0 || len(b.stderr) != 0 {
			c.Fatalf("%q: %s and with COLUMNS=%s %s", args, a, cols, b)
		}
		if x, y := strings.Join(strings.Fields(string(a.stdout)), " "), strings.Join(strings.Fields(string(b.stdout)), " "); x != y {
			c.Fatalf("%q: COLUMNS=%s changes the words: %q and %q", args, cols, x, y)
		}
		c.Nontrivial(fmt.Sprintf("%q %s", args, cols))
	})

	// To a terminal: its width is used, unless COLUMNS says another one.
	p.Run("terminal", 300, 2000, func(c *h.C) {
		s := newSandbox()
		defer s.done()
		cmd := commands[h.Int(c.T, "cmd", 0, len(commands)-1)]
		args := append(append([]string{}, cmd[:h.Int(c.T, "depth", 0, 2)]...), "--help")
		width := h.Pick(c.T, "width", 80, 40, 41, 100, 60, 39, 1, 0, 200, h.Int(c.T, "w", 1, 300))
		env := []string{}
		want := strconv.Itoa(width)
		if cols := h.Pick(c.T, "cols", "", "", "", "72", "0", "x"); cols != "" {
			env = append(env, "COLUMNS="+cols)
			if cols != "x" {
				want = cols
			}
		}
		master, slave, ok := openPty(width)
		if !ok {
			c.Label("no terminal available")
			return
		}
		// The terminal stays open on our side, and what is printed ends with a mark of ours: what is
		// still on its way when the last writer closes a terminal may be lost.
		const mark = "\x00the end\x00"
		var got []byte
		read := make(chan struct{})
		go func() {
			defer close(read)
			buf := make([]byte, 4096)
			for !bytes.HasSuffix(got, []byte(mark)) {
				n, err := master.Read(buf)
				got = append(got, buf[:n]...)
				if err != nil {
					return
				}
			}
			got = got[:len(got)-len(mark)]
		}()
		a := s.run(runOpts{env: env, stdout: slave}, args...)
		_, err := slave.WriteString(mark)
		h.Must(err)
		<-read
		h.Must(slave.Close())
		h.Must(master.Close())
		b := s.run(runOpts{env: []string{"COLUMNS=" + want}}, args...)
		if a.rc != 0 || len(a.stderr) != 0 {
			c.Fatalf("%q to a terminal: %s", args, a)
		}
		if text := strings.ReplaceAll(string(got), "\r\n", "\n"); text != string(b.stdout) {
			c.Fatalf("%q to a terminal %d wide with %q prints\n%s\nwant\n%s", args, width, env, text, b.stdout)
		}
		c.Nontrivial(fmt.Sprintf("%q %d %q", args, width, env))
	})
}

// openPty makes a terminal of the given width.
func openPty(width int) (master, slave *os.File, ok bool) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, false
	}
	ioctl := func(f *os.File, req uintptr, arg unsafe.Pointer) bool {
		_, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(arg))
		return e == 0
	}
	var unlock, n int32
	size := [4]uint16{24, uint16(width), 0, 0}
	if !ioctl(m, syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)) || !ioctl(m, syscall.TIOCGPTN, unsafe.Pointer(&n)) {
		_ = m.Close()
		return nil, nil, false
	}
	sl, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		_ = m.Close()
		return nil, nil, false
	}
	if !ioctl(sl, syscall.TIOCSWINSZ, unsafe.Pointer(&size)) {
		_ = m.Close()
		_ = sl.Close()
		return nil, nil, false
	}
	return m, sl, true
}
