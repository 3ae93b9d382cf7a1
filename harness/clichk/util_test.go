package clichk

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif.local/harness/h"
)

// sandbox is a scratch directory that belongs to an unprivileged user, as whom the commands run.
type sandbox struct {
	dir  string
	done func()
}

const nobody = 65534

func newSandbox() *sandbox {
	d, done := h.TempDir()
	s := &sandbox{dir: d, done: done}
	h.Must(os.Chmod(d, 0o755))
	s.own(d)
	s.mkdir("tmp")
	return s
}

func (s *sandbox) own(p string) {
	if os.Getuid() == 0 {
		h.Must(os.Lchown(p, nobody, nobody))
	}
}

func (s *sandbox) path(rel string) string { return filepath.Join(s.dir, rel) }

func (s *sandbox) mkdir(rel string) string {
	p := s.path(rel)
	if err := os.Mkdir(p, 0o755); err != nil && !errors.Is(err, os.ErrExist) {
		h.Must(err)
	}
	s.own(p)
	return p
}

func (s *sandbox) write(rel string, bs []byte, mode os.FileMode) string {
	p := s.path(rel)
	if err := os.Remove(p); err != nil && !errors.Is(err, os.ErrNotExist) {
		h.Must(err)
	}
	h.Must(os.WriteFile(p, bs, 0o600))
	s.own(p)
	h.Must(os.Chmod(p, mode))
	return p
}

// leftovers are the files in the temporary directory that commands use.
func (s *sandbox) leftovers() []string {
	des, err := os.ReadDir(s.path("tmp"))
	h.Must(err)
	var ret []string
	for _, de := range des {
		ret = append(ret, de.Name())
	}
	return ret
}

type outcome struct {
	rc             int
	stdout, stderr []byte
}

func (o outcome) String() string {
	return fmt.Sprintf("exit %d, %d bytes on stdout, stderr %q", o.rc, len(o.stdout), o.stderr)
}

// crashed reports whether the program died rather than report an error.
func (o outcome) crashed() bool {
	return o.rc < 0 || bytes.Contains(o.stderr, []byte("goroutine ")) || bytes.Contains(o.stderr, []byte("panic: "))
}

type runOpts struct {
	cwd    string
	env    []string
	stdout *os.File
	umask  string
	wrap   []string
}

// run runs the ocibuild binary in the sandbox.
func (s *sandbox) run(o runOpts, args ...string) outcome {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	argv := append([]string{h.CLI()}, args...)
	if o.umask != "" {
		argv = append([]string{"/bin/sh", "-c", "umask " + o.umask + " && exec \"$@\"", "sh"}, argv...)
	}
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = s.dir
	if o.cwd != "" {
		cmd.Dir = o.cwd
	}
	cmd.Env = append([]string{"PATH=/usr/local/bin:/usr/bin:/bin", "TMPDIR=" + s.path("tmp"), "HOME=" + s.dir, "LC_ALL=C.UTF-8"}, o.env...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if o.stdout != nil {
		cmd.Stdout = o.stdout
	}
	if os.Getuid() == 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	err := cmd.Run()
	if ctx.Err() != nil {
		fmt.Fprintf(os.Stderr, "HANG: %s did not end within 120s\n", strings.Join(args, " "))
		os.Exit(4)
	}
	ret := outcome{stdout: out.Bytes(), stderr: errb.Bytes()}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			h.Infra("%v", err)
		}
		ret.rc = ee.ExitCode()
	}
	return ret
}
