package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

var repo = envOr("OCT_REPO", "/repo")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

var scratch string // created by check.sh, removed by it

func goEnv(extra ...string) []string {
	e := []string{"HOME=/root", "PATH=" + os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=" + envOr("GOCACHE", "/root/.cache/go-build"), "GOFLAGS="}
	return append(e, extra...)
}

// buildOct builds the command from the repository's working tree.
func buildOct(out string, overlay map[string]string, extraArgs []string, env ...string) error {
	mod := filepath.Join(scratch, "oct.mod")
	for _, f := range []string{"mod", "sum"} {
		b, err := os.ReadFile(filepath.Join(repo, "go."+f))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(scratch, "oct."+f), b, 0644); err != nil {
			return err
		}
	}
	args := []string{"build", "-buildvcs=false", "-mod=mod", "-modfile=" + mod, "-o", out}
	if overlay != nil {
		b, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
		ov := out + ".overlay.json"
		if err := os.WriteFile(ov, b, 0644); err != nil {
			return err
		}
		args = append(args, "-overlay", ov)
	}
	args = append(args, extraArgs...)
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = goEnv(env...)
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("go build: %v\n%s", err, b)
	}
	return nil
}

func buildAll() error {
	drv := filepath.Join(scratch, "zz_drv.go")
	src, err := os.ReadFile(filepath.Join(mcDir, "driver", "zz_drv.go.txt"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(drv, src, 0644); err != nil {
		return err
	}
	ch := make(chan error, 2)
	go func() { ch <- buildOct(filepath.Join(scratch, "oct"), nil, nil) }()
	go func() {
		ch <- buildOct(filepath.Join(scratch, "octw"), map[string]string{filepath.Join(repo, "zz_drv.go"): drv}, nil)
	}()
	for i := 0; i < 2; i++ {
		if e := <-ch; e != nil {
			err = e
		}
	}
	return err
}

// Res is what one run of the command did.
type Res struct {
	Exit    int // -1 = timed out
	Out     string
	Timeout bool
}

func (r Res) OK() bool { return r.Exit == 0 }
func (r Res) Crashed() bool {
	return r.Timeout || strings.Contains(r.Out, "panic:") || strings.Contains(r.Out, "fatal error:") || strings.Contains(r.Out, "goroutine ")
}

type step struct {
	Files map[string]string `json:"files,omitempty"`
	Args  []string          `json:"args,omitempty"`
	Env   map[string]string `json:"env,omitempty"`
	Exit  int               `json:"exit"`
	Out   string            `json:"out,omitempty"`
}

type worker struct {
	cmd  *exec.Cmd
	in   *os.File
	ack  *os.File
	out  *os.File
	jobs int
}

// Runner runs commands in its own scratch directory, either through a worker
// process or by starting the plain binary for each command.
type Runner struct {
	id    int
	dir   string
	fresh bool
	bin   string // for fresh
	wbin  string
	env   []string // extra environment for processes
	w     *worker
	log   []step
	rec   bool
	Runs  int
	limit time.Duration
	pyw   *pyWorker
	wrap  []string // command prefix for fresh runs
}

func newRunner(id int, fresh bool) *Runner {
	r := &Runner{id: id, fresh: fresh, bin: filepath.Join(scratch, "oct"), wbin: filepath.Join(scratch, "octw"), limit: 20 * time.Second}
	r.dir = filepath.Join(scratch, fmt.Sprintf("run%d", id))
	if fresh {
		r.dir += "f"
	}
	os.MkdirAll(r.dir, 0755)
	return r
}

func (r *Runner) Close() {
	if r.w != nil {
		r.w.stop()
		r.w = nil
	}
	if r.pyw != nil {
		r.pyw.stop()
		r.pyw = nil
	}
	os.RemoveAll(r.dir)
}

// Reset empties the scratch directory.
func (r *Runner) Reset() {
	ents, _ := os.ReadDir(r.dir)
	for _, e := range ents {
		p := filepath.Join(r.dir, e.Name())
		if e.IsDir() {
			os.RemoveAll(p)
		} else {
			os.Remove(p)
		}
	}
	r.log = nil
}

func (r *Runner) Put(name string, data []byte) {
	p := filepath.Join(r.dir, name)
	if strings.Contains(name, "/") {
		os.MkdirAll(filepath.Dir(p), 0755)
	}
	if err := os.WriteFile(p, data, 0644); err != nil {
		panic(err)
	}
	if r.rec {
		d := string(data)
		if len(d) > 20000 {
			d = d[:20000] + "..."
		}
		r.log = append(r.log, step{Files: map[string]string{name: d}})
	}
}

func (r *Runner) PutSchema(name string, s *Schema) { r.Put(name, s.JSON()) }

func (r *Runner) Get(name string) ([]byte, bool) {
	b, err := os.ReadFile(filepath.Join(r.dir, name))
	return b, err == nil
}

func (r *Runner) Str(name string) string {
	b, _ := r.Get(name)
	return string(b)
}

// Tree lists all files (path -> content); directories end in "/".
func (r *Runner) Tree() map[string]string {
	m := map[string]string{}
	filepath.Walk(r.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == r.dir {
			return nil
		}
		rel, _ := filepath.Rel(r.dir, p)
		if fi.IsDir() {
			m[rel+"/"] = ""
			return nil
		}
		b, _ := os.ReadFile(p)
		m[rel] = string(b)
		return nil
	})
	return m
}

func treeFiles(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (r *Runner) Run(args ...string) Res { return r.RunEnv(nil, args...) }

func (r *Runner) RunEnv(env map[string]string, args ...string) Res {
	r.Runs++
	var res Res
	if r.fresh {
		res = r.runFresh(env, args)
	} else {
		res = r.runWorker(env, args)
	}
	if r.rec {
		o := res.Out
		if len(o) > 4000 {
			o = o[:4000]
		}
		r.log = append(r.log, step{Args: args, Env: env, Exit: res.Exit, Out: o})
	}
	return res
}

func (r *Runner) baseEnv() []string {
	return append([]string{"HOME=/root", "PATH=/usr/bin:/bin", "LANG=C.UTF-8", "GOMAXPROCS=2"}, r.env...)
}

func (r *Runner) runFresh(env map[string]string, args []string) Res {
	full := append([]string{}, r.wrap...)
	full = append(full, r.bin)
	full = append(full, args...)
	cmd := exec.Command(full[0], full[1:]...)
	cmd.Dir = r.dir
	cmd.Env = r.baseEnv()
	for k, v := range env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return Res{Exit: -2, Out: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
		ec := cmd.ProcessState.ExitCode()
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			ec = 128 + int(ws.Signal())
		}
		return Res{Exit: ec, Out: buf.String()}
	case <-time.After(r.limit):
		cmd.Process.Kill()
		<-done
		return Res{Exit: -1, Out: buf.String(), Timeout: true}
	}
}

func (r *Runner) startWorker() error {
	inR, inW, err := os.Pipe()
	if err != nil {
		return err
	}
	ackR, ackW, err := os.Pipe()
	if err != nil {
		return err
	}
	out, err := os.OpenFile(filepath.Join(scratch, fmt.Sprintf("out%d.txt", r.id)), os.O_CREATE|os.O_RDWR|os.O_APPEND|os.O_TRUNC, 0644)
	if err != nil {
		return err
	}
	cmd := exec.Command(r.wbin)
	cmd.Dir = r.dir
	cmd.Env = append(r.baseEnv(), "OCT_MC_WORKER=1")
	cmd.ExtraFiles = []*os.File{inR, ackW}
	cmd.Stdout, cmd.Stderr = out, out
	if err := cmd.Start(); err != nil {
		return err
	}
	inR.Close()
	ackW.Close()
	r.w = &worker{cmd: cmd, in: inW, ack: ackR, out: out}
	return nil
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.ack.Close()
	w.out.Close()
}

// Recycle ends the worker so that the next command starts in a new process.
func (r *Runner) Recycle() {
	if r.w != nil {
		r.w.stop()
		r.w = nil
	}
}

func (r *Runner) runWorker(env map[string]string, args []string) Res {
	if r.w == nil || r.w.jobs > 20000 {
		r.Recycle()
		if err := r.startWorker(); err != nil {
			return Res{Exit: -2, Out: err.Error()}
		}
	}
	w := r.w
	w.jobs++
	w.out.Truncate(0)
	b, _ := json.Marshal(map[string]interface{}{"Dir": r.dir, "Args": args, "Env": env})
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		r.Recycle()
		return Res{Exit: -2, Out: err.Error()}
	}
	w.ack.SetReadDeadline(time.Now().Add(r.limit))
	var one [1]byte
	n, err := w.ack.Read(one[:])
	read := func() string {
		b, _ := os.ReadFile(w.out.Name())
		return string(b)
	}
	if n == 1 {
		return Res{Exit: 0, Out: read()}
	}
	if os.IsTimeout(err) {
		w.cmd.Process.Kill()
		w.cmd.Wait()
		o := read()
		r.Recycle()
		return Res{Exit: -1, Out: o, Timeout: true}
	}
	w.cmd.Wait()
	ec := w.cmd.ProcessState.ExitCode()
	if ws, ok := w.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		ec = 128 + int(ws.Signal())
	}
	o := read()
	w.in.Close()
	w.ack.Close()
	w.out.Close()
	r.w = nil
	if ec == 0 {
		ec = 0 // os.Exit(0) inside main counts as success
	}
	return Res{Exit: ec, Out: o}
}

// Fresh runs the plain binary in a process of its own.
func (r *Runner) Fresh(env map[string]string, args ...string) Res {
	r.Runs++
	res := r.runFresh(env, args)
	if r.rec {
		r.log = append(r.log, step{Args: args, Env: env, Exit: res.Exit, Out: clip(res.Out, 4000)})
	}
	return res
}

func (r *Runner) list() []string {
	var l []string
	ents, _ := os.ReadDir(r.dir)
	for _, e := range ents {
		l = append(l, e.Name())
	}
	return l
}
