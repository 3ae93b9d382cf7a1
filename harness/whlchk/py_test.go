package whlchk

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sync"

	"verif.local/harness/h"
)

//go:embed server.py
var serverPy string

var server struct {
	once sync.Once
	in   io.Writer
	out  *bufio.Reader
}

const pythonExe = "/usr/local/bin/python3"

// ask asks the Python process.
func ask(q map[string]interface{}, r interface{}) {
	server.once.Do(func() {
		file := filepath.Join(h.Scratch(), "server-whl.py")
		h.Must(os.WriteFile(file, []byte(serverPy), 0o644))
		cmd := exec.Command(pythonExe, "-I", file)
		in, err := cmd.StdinPipe()
		h.Must(err)
		out, err := cmd.StdoutPipe()
		h.Must(err)
		cmd.Stderr = os.Stderr
		h.Must(cmd.Start())
		server.in, server.out = in, bufio.NewReaderSize(out, 1<<20)
	})
	bs, err := json.Marshal(q)
	h.Must(err)
	_, err = server.in.Write(append(bs, '\n'))
	h.Must(err)
	line, err := server.out.ReadBytes('\n')
	h.Must(err)
	h.Must(json.Unmarshal(line, r))
}
