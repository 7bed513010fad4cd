package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// The "nd" build of the command: the unmodified sources of /repo with a
// standard library whose random choices and file system calls ask the checker.

type ndPoint struct {
	N    int    `json:"n"`
	Site string `json:"site"`
}

type ndTraced struct {
	Points []ndPoint `json:"points"`
	Calls  []ndPoint `json:"calls"`
}

func patch(src string, subs ...string) (string, error) {
	for i := 0; i < len(subs); i += 2 {
		if strings.Count(src, subs[i]) != 1 {
			return "", fmt.Errorf("standard library differs from what the harness expects: %q", subs[i])
		}
		src = strings.Replace(src, subs[i], subs[i+1], 1)
	}
	return src, nil
}

func buildND() error {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Env = goEnv()
	b, err := cmd.Output()
	if err != nil {
		return err
	}
	goroot := filepath.Join(strings.TrimSpace(string(b)), "src")
	ov := map[string]string{}
	edit := func(name string, subs ...string) error {
		b, err := os.ReadFile(filepath.Join(goroot, name))
		if err != nil {
			return err
		}
		s, err := patch(string(b), subs...)
		if err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		p := filepath.Join(scratch, "nd_"+strings.ReplaceAll(name, "/", "_"))
		ov[filepath.Join(goroot, name)] = p
		return os.WriteFile(p, []byte(s), 0644)
	}
	if err := edit("internal/runtime/maps/table.go",
		"\tit.entryOffset = rand()\n\tit.dirOffset = rand()\n", `	it.entryOffset = rand()
	it.dirOffset = rand()
	if VerifIter != nil && m.used > 1 {
		if v, ok := VerifIter(m.used); ok {
			it.entryOffset = v
			it.dirOffset = v
		}
	}
`, "// Init initializes Iter for iteration.\n", "var VerifIter func(n uint64) (uint64, bool)\n\n// Init initializes Iter for iteration.\n"); err != nil {
		return err
	}
	if err := edit("runtime/rand.go", "\tmp := getg().m\n\tc := &mp.chacha8\n\tfor {\n\t\t// Note: c.Next", `	if verifRandOn {
		verifRandState += 0x9E3779B97F4A7C15
		z := verifRandState
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
		z = (z ^ (z >> 27)) * 0x94D049BB133111EB
		return z ^ (z >> 31)
	}
	mp := getg().m
	c := &mp.chacha8
	for {
		// Note: c.Next`, "// rand returns a random uint64 from the per-m chacha8 state.\n", "var verifRandOn bool\nvar verifRandState uint64\n\n// rand returns a random uint64 from the per-m chacha8 state.\n"); err != nil {
		return err
	}
	if err := edit("time/time.go", "func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n", "var verifShift int64\n\nfunc Now() Time {\n\tsec, nsec, mono := runtimeNow()\n\tsec += verifShift\n"); err != nil {
		return err
	}
	hook := func(op, fd, path, n, ret string) string {
		return fmt.Sprintf("\tif VerifSys != nil {\n\t\tverifN, verifErr := VerifSys(%q, %s, %s, %s)\n\t\t_ = verifN\n\t\tif verifErr != nil {\n\t\t\treturn %s\n\t\t}\n", op, fd, path, n, ret)
	}
	if err := edit("syscall/zsyscall_linux_amd64.go",
		"func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n",
		"var VerifSys func(op string, fd int, path string, n int) (int, error)\n\nfunc openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n"+hook("open", "-1", "path", "flags", "-1, verifErr")+"\t\tdefer func() {\n\t\t\tif err == nil && VerifSys != nil {\n\t\t\t\tVerifSys(\"opened\", fd, path, 0)\n\t\t\t}\n\t\t}()\n\t}\n",
		"func Close(fd int) (err error) {\n", "func Close(fd int) (err error) {\n\tif VerifSys != nil {\n\t\tif _, verifErr := VerifSys(\"close\", fd, \"\", 0); verifErr != nil {\n\t\t\tSyscall(SYS_FTRUNCATE, uintptr(fd), 0, 0) // delayed writes are lost\n\t\t\tSyscall(SYS_CLOSE, uintptr(fd), 0, 0)\n\t\t\treturn verifErr\n\t\t}\n\t}\n",
		"func read(fd int, p []byte) (n int, err error) {\n", "func read(fd int, p []byte) (n int, err error) {\n"+hook("read", "fd", `""`, "len(p)", "-1, verifErr")+"\t\tif verifN < len(p) {\n\t\t\tp = p[:verifN]\n\t\t}\n\t}\n",
		"func write(fd int, p []byte) (n int, err error) {\n", "func write(fd int, p []byte) (n int, err error) {\n"+hook("write", "fd", `""`, "len(p)", "-1, verifErr")+"\t\tif verifN < len(p) {\n\t\t\tp = p[:verifN]\n\t\t}\n\t}\n",
		"func pwrite(fd int, p []byte, offset int64) (n int, err error) {\n", "func pwrite(fd int, p []byte, offset int64) (n int, err error) {\n"+hook("write", "fd", `""`, "len(p)", "-1, verifErr")+"\t\tif verifN < len(p) {\n\t\t\tp = p[:verifN]\n\t\t}\n\t}\n",
		"func pread(fd int, p []byte, offset int64) (n int, err error) {\n", "func pread(fd int, p []byte, offset int64) (n int, err error) {\n"+hook("read", "fd", `""`, "len(p)", "-1, verifErr")+"\t\tif verifN < len(p) {\n\t\t\tp = p[:verifN]\n\t\t}\n\t}\n",
		"func Mkdirat(dirfd int, path string, mode uint32) (err error) {\n", "func Mkdirat(dirfd int, path string, mode uint32) (err error) {\n"+hook("mkdir", "-1", "path", "0", "verifErr")+"\t}\n",
		"func Ftruncate(fd int, length int64) (err error) {\n", "func Ftruncate(fd int, length int64) (err error) {\n"+hook("truncate", "fd", `""`, "0", "verifErr")+"\t}\n",
		"func Fsync(fd int) (err error) {\n", "func Fsync(fd int) (err error) {\n"+hook("sync", "fd", `""`, "0", "verifErr")+"\t}\n",
		"func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {\n", "func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {\n"+hook("rename", "-1", "newpath", "0", "verifErr")+"\t}\n",
		"func unlinkat(dirfd int, path string, flags int) (err error) {\n", "func unlinkat(dirfd int, path string, flags int) (err error) {\n"+hook("unlink", "-1", "path", "0", "verifErr")+"\t}\n",
		"func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n", "func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n"+hook("stat", "-1", "path", "0", "verifErr")+"\t}\n",
	); err != nil {
		return err
	}
	src, err := os.ReadFile(filepath.Join(mcDir, "driver", "zz_nd.go.txt"))
	if err != nil {
		return err
	}
	drv := filepath.Join(scratch, "zz_nd.go")
	if err := os.WriteFile(drv, src, 0644); err != nil {
		return err
	}
	ov[filepath.Join(repo, "zz_nd.go")] = drv
	return buildOct(filepath.Join(scratch, "octnd"), ov, []string{"-ldflags=-checklinkname=0"})
}

// useND makes the runners use the nd build.
func (x *Ctx) useND() {
	if err := buildND(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	bin := filepath.Join(scratch, "octnd")
	for _, r := range append([]*Runner{x.freshR}, x.runners...) {
		r.bin, r.wbin = bin, bin
	}
}

// nd runs the command under the given choices; the trace is there if it succeeds in a worker.
func (r *Runner) nd(spec string, traced bool, args ...string) (Res, ndTraced) {
	env := map[string]string{"OCT_ND": spec}
	tf := r.dir + ".trace"
	if traced && !r.fresh {
		os.Remove(tf)
		env["OCT_ND_TRACE"] = tf
	}
	res := r.RunEnv(env, args...)
	var t ndTraced
	if traced && !r.fresh {
		if b, err := os.ReadFile(tf); err == nil {
			json.Unmarshal(b, &t)
		}
	}
	return res, t
}
