package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
)

// ---- C28: file system faults ----------------------------------------------------------

type faultCase struct {
	cmd    int
	all    bool
	set    int
	out    string
	real   string // a fault made without injection
	double bool
}

// errors by operation; the benign ones must not change the outcome
var faultErrs = map[string][]string{
	"open":     {"13", "24", "28", "5", "30", "2", "21", "4*"},
	"read":     {"5", "one*", "short*", "4*"},
	"write":    {"28", "5", "27", "122", "32", "one*", "short*", "4*"},
	"close":    {"5", "28", "122"},
	"mkdir":    {"13", "28", "30", "5", "4*"},
	"stat":     {"13", "5", "4*"},
	"rename":   {"13", "18", "28", "5"},
	"unlink":   {"13", "5"},
	"truncate": {"5", "28", "4*"},
	"sync":     {"5", "28"},
}

var errNames = map[string]string{"13": "EACCES", "24": "EMFILE", "28": "ENOSPC", "5": "EIO", "30": "EROFS", "2": "ENOENT", "21": "EISDIR", "4": "EINTR", "27": "EFBIG", "122": "EDQUOT", "32": "EPIPE", "18": "EXDEV"}

func (k *faultCase) step() hStep { return hStep{k.cmd, k.all, k.set, k.out} }

// fault runs the command with a fault plan; calls are the file system calls it made.
func (k *faultCase) run(r *Runner, plan string) (tree map[string]string, res Res, calls []ndPoint) {
	r.Reset()
	putCliInputs(r)
	logf := r.dir + ".calls"
	os.Remove(logf)
	s := k.step()
	in := strings.TrimSuffix(plan, ";")
	res = r.Fresh(map[string]string{"OCT_ND": "seed=1;" + in, "OCT_ND_LOG": logf}, s.args("", s.out, "")...)
	b, _ := os.ReadFile(logf)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 3)
		if len(f) == 3 {
			p := ndPoint{Site: f[0] + " " + f[2]}
			fmt.Sscanf(f[1], "%d", &p.N)
			calls = append(calls, p)
		}
	}
	return hText(r.Tree()), res, calls
}

var faultRuns atomic.Int64

func evalC28(r *Runner, c *Case) []Finding {
	k := c.X.(*faultCase)
	name := cliCmds[k.cmd].name
	if k.real != "" {
		return k.evalReal(r)
	}
	want, res, calls := k.run(r, "")
	faultRuns.Add(1)
	if !res.OK() || len(calls) == 0 {
		return finding("fails:"+name, "%s: exit %d with %d file system calls: %s", k.step(), res.Exit, len(calls), clip(res.Out, 400))
	}
	inputs := map[string]string{}
	for n, b := range cliFiles() {
		inputs[n] = string(b)
	}
	hText(inputs)
	try := func(plan, what string, benign bool) []Finding {
		faultRuns.Add(1)
		got, res, _ := k.run(r, plan)
		if res.Crashed() || res.Exit >= 2 {
			return finding("crash:"+name, "%s with %s: exit %d: %s", k.step(), what, res.Exit, clip(res.Out, 600))
		}
		for n, v := range inputs {
			if got[n] != v {
				return finding("input:"+name, "%s with %s: input file %s is changed", k.step(), what, n)
			}
		}
		if res.OK() {
			if d := diffTrees(got, want); d != "" {
				return finding("swallowed:"+name, "%s with %s reports success, but %s", k.step(), what, d)
			}
			return nil
		}
		if benign {
			return finding("fragile:"+name, "%s with %s, which is no failure, ends with exit %d: %s", k.step(), what, res.Exit, clip(res.Out, 400))
		}
		if strings.TrimSpace(res.Out) == "" {
			return finding("silent:"+name, "%s with %s: exit %d without a message", k.step(), what, res.Exit)
		}
		return nil
	}
	if f := try("trickle=1", "reads and writes of at most 7 bytes", true); f != nil {
		return f
	}
	describe := func(i int, e string) string {
		at := ""
		if i < len(calls) {
			at = " (" + strings.TrimSpace(calls[i].Site) + ")"
		}
		if n, ok := errNames[e]; ok {
			e = n
		}
		return fmt.Sprintf("%s at file system call %d%s", e, i, at)
	}
	for i, cl := range calls {
		op := strings.Fields(cl.Site)[0]
		for _, e := range faultErrs[op] {
			b, benign := strings.CutSuffix(e, "*")
			if f := try(fmt.Sprintf("f=%d:%s", i, b), describe(i, b), benign); f != nil {
				return f
			}
			if benign && (op == "write" || op == "read") {
				// partial transfer, then a failure of the call after it
				for _, e2 := range []string{"28", "5"} {
					if op == "read" && e2 == "28" {
						continue
					}
					if f := try(fmt.Sprintf("f=%d:%s,%d:%s", i, b, i+1, e2), describe(i, b)+" then "+describe(i+1, e2), false); f != nil {
						return f
					}
				}
			}
		}
	}
	if k.double {
		for i, ci := range calls {
			for j := i + 1; j < len(calls); j++ {
				for _, e := range faultErrs[strings.Fields(ci.Site)[0]] {
					for _, e2 := range faultErrs[strings.Fields(calls[j].Site)[0]] {
						a, ba := strings.CutSuffix(e, "*")
						b, bb := strings.CutSuffix(e2, "*")
						if f := try(fmt.Sprintf("f=%d:%s,%d:%s", i, a, j, b), describe(i, a)+" and "+describe(j, b), ba && bb); f != nil {
							return f
						}
					}
				}
			}
		}
	}
	return nil
}

var realFaults = []string{"input missing", "input is a directory", "input empty name", "parent missing", "parent is a file", "output is a directory", "output file is a directory", "device full"}

func (k *faultCase) evalReal(r *Runner) []Finding {
	s := k.step()
	name := cliCmds[k.cmd].name
	m := s.alone(r)
	faultRuns.Add(1)
	isDir := false
	var file string
	for p := range m.tree {
		if p == s.out+"/" {
			isDir = true
		} else if !strings.HasSuffix(p, "/") && (file == "" || p < file) {
			file = p
		}
	}
	r.Reset()
	putCliInputs(r)
	ins := hInput(s, "")
	args := s.args("", s.out, "")
	switch k.real {
	case "input missing", "input is a directory", "input empty name":
		if len(ins) == 0 {
			return nil
		}
		for _, key := range []string{"input", "from", "to"} {
			v, ok := ins[key]
			if !ok {
				continue
			}
			a := append([]string{}, args...)
			bad := "nosuch" + filepath.Ext(v)
			if k.real == "input is a directory" {
				bad = "dir" + filepath.Ext(v)
				os.Mkdir(filepath.Join(r.dir, bad), 0755)
			}
			if k.real == "input empty name" {
				bad = ""
			}
			for i := range a {
				if a[i] == "--"+key {
					a[i+1] = bad
				}
			}
			if f := k.mustFail(r, name, a); f != nil {
				return f
			}
		}
		return nil
	case "parent missing":
		if isDir {
			return nil
		}
		args = s.args("", "no/such/"+s.out, "")
		before := r.Tree()
		res := r.Fresh(nil, args...)
		faultRuns.Add(1)
		if res.OK() { // creating the directory is as good
			if _, ok := r.Get("no/such/" + s.out); !ok {
				return finding("swallowed:"+name, "%s reports success without output", cmdLine(args))
			}
			return nil
		}
		_ = before
		return k.failed(name, args, res)
	case "parent is a file":
		r.Put("par", []byte("x"))
		return k.mustFail(r, name, s.args("", "par/"+s.out, ""))
	case "output is a directory":
		if isDir {
			return nil
		}
		os.Mkdir(filepath.Join(r.dir, s.out), 0755)
	case "output file is a directory":
		if !isDir || file == "" {
			return nil
		}
		os.MkdirAll(filepath.Join(r.dir, file), 0755)
	case "device full":
		if m.tree[file] == "" {
			return nil // nothing has to be written
		}
		os.MkdirAll(filepath.Dir(filepath.Join(r.dir, file)), 0755)
		os.Symlink("/dev/full", filepath.Join(r.dir, file))
	}
	return k.mustFail(r, name, args)
}

func (k *faultCase) mustFail(r *Runner, name string, args []string) []Finding {
	faultRuns.Add(1)
	res := r.Fresh(nil, args...)
	for n, b := range cliFiles() {
		if g, _ := r.Get(n); string(g) != string(b) {
			return finding("input:"+name, "%s (%s) changes input file %s", cmdLine(args), k.real, n)
		}
	}
	if res.OK() {
		return finding("swallowed:"+name, "%s reports success (%s)", cmdLine(args), k.real)
	}
	return k.failed(name, args, res)
}

func (k *faultCase) failed(name string, args []string, res Res) []Finding {
	if res.Crashed() || res.Exit >= 2 {
		return finding("crash:"+name, "%s (%s): exit %d: %s", cmdLine(args), k.real, res.Exit, clip(res.Out, 600))
	}
	if strings.TrimSpace(res.Out) == "" {
		return finding("silent:"+name, "%s (%s): exit %d without a message", cmdLine(args), k.real, res.Exit)
	}
	return nil
}

func exploreC28(x *Ctx, emit func(*Case) bool) {
	for _, s := range hSteps([]bool{false, true}, []int{1, 2}, func(c *cliCmd) []string {
		if o := hOwn(c); filepath.Ext(o) == "" {
			return []string{o, "new/deep"}
		}
		return hOuts(c)
	}) {
		base := faultCase{cmd: s.cmd, all: s.all, set: s.set, out: s.out, double: x.Thorough}
		title := []string{s.String()}
		atomic.AddInt64(&x.states, 1)
		k := base
		if !emit(&Case{Name: "faults", Trace: title, X: &k}) {
			return
		}
		for _, f := range realFaults {
			k := base
			k.real = f
			atomic.AddInt64(&x.states, 1)
			if !emit(&Case{Name: f, Trace: title, X: &k}) {
				return
			}
		}
	}
}

func init() {
	register("C28", func(x *Ctx) {
		x.useND()
		x.Pool(evalC28, func(emit func(*Case) bool) { exploreC28(x, emit) })
		x.Note("fault_runs", faultRuns.Load())
		x.trans = faultRuns.Load()
	})
}
