package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
)

// pyWorker loads generated Python modules (py/sa.py).
type pyWorker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type saCol struct {
	Attr     string                 `json:"attr"`
	Name     string                 `json:"name"`
	Type     string                 `json:"type"`
	Args     map[string]interface{} `json:"args"`
	PK       bool                   `json:"pk"`
	Unique   bool                   `json:"unique"`
	AutoInc  bool                   `json:"autoinc"`
	Nullable bool                   `json:"nullable"`
	Default  string                 `json:"default"`
	OnUpdate string                 `json:"onupdate"`
}
type saClass struct {
	Name  string          `json:"name"`
	Table string          `json:"table"`
	Cols  []saCol         `json:"cols"`
	Uniq  [][]interface{} `json:"uniq"`
}
type saModule struct {
	Err     string    `json:"err"`
	Classes []saClass `json:"classes"`
}

func (w *pyWorker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

func (r *Runner) py(src string) *saModule {
	if r.pyw == nil {
		cmd := exec.Command("/usr/bin/python3", "-I", "-B", filepath.Join(mcDir, "py", "sa.py"))
		cmd.Env = []string{"PATH=/usr/bin:/bin", "LANG=C.UTF-8", "PYTHONUTF8=1", "PYTHONWARNINGS=ignore"}
		cmd.Stderr = os.Stderr
		in, err := cmd.StdinPipe()
		if err != nil {
			panic(err)
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			panic(err)
		}
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		r.pyw = &pyWorker{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}
	}
	b, _ := json.Marshal(map[string]string{"src": src})
	if _, err := r.pyw.in.Write(append(b, '\n')); err != nil {
		panic(fmt.Sprintf("python worker: %v", err))
	}
	l, err := r.pyw.out.ReadBytes('\n')
	if err != nil {
		panic(fmt.Sprintf("python worker: %v", err))
	}
	m := &saModule{}
	if err := json.Unmarshal(l, m); err != nil {
		panic(fmt.Sprintf("python worker: %v: %s", err, l))
	}
	return m
}
