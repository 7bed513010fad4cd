package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
)

// ---- C29: histories ------------------------------------------------------------------

// hStep is one command of a history.
type hStep struct {
	cmd int
	all bool   // all options given
	set int    // which input files
	out string // output path
}

type hCase struct {
	kind  string // history, existing, spelling, environment, chain
	steps []hStep
	pre   string // existing: what is at the output path
	alt   int    // spelling, environment: which
}

var hUnrelated = map[string]string{"unrelated.txt": "x", "notes.json": "{}", "o.json.tmp": "t", "out/unrelated.kt": "fun x() = 1\n", "out/sub/deep.txt": "d", ".hidden": "h", "o.json~": "b"}

func hOwn(c *cliCmd) string {
	for _, o := range c.all() {
		if o.long == "output" {
			if c.name == "init" {
				return "s.json"
			}
			return "s" + filepath.Ext(o.v1)
		}
	}
	return "s"
}

func hInput(s hStep, prefix string) map[string]string {
	c := &cliCmds[s.cmd]
	m := map[string]string{}
	for _, o := range c.all() {
		v := o.v1
		if s.set == 2 {
			v = o.v2
		}
		switch o.long {
		case "input", "from", "to":
			m[o.long] = prefix + v
		}
	}
	return m
}

func (s hStep) args(inPrefix, out string, inOverride string) []string {
	c := &cliCmds[s.cmd]
	a := append([]string{}, c.verb...)
	ins := hInput(s, inPrefix)
	for _, k := range []string{"input", "from", "to"} {
		if v, ok := ins[k]; ok {
			if inOverride != "" && k != "to" {
				v = inOverride
			}
			a = append(a, "--"+k, v)
		}
	}
	a = append(a, "--output", out)
	if s.all {
		for _, o := range c.opt {
			switch {
			case o.long == "output":
			case o.flag:
				a = append(a, "--"+o.long)
			default:
				a = append(a, "--"+o.long, o.v1)
			}
		}
	}
	return a
}

func (s hStep) String() string { return cmdLine(s.args("", s.out, "")) }

func hText(m map[string]string) map[string]string {
	for k, v := range m {
		if strings.HasPrefix(v, "PK\x03\x04") {
			if t, err := xlsxText([]byte(v)); err == nil {
				m[k] = "workbook\n" + t
			}
		}
	}
	return m
}

// hBase puts inputs and unrelated files and gives the tree.
func hBase(r *Runner, prefix string) map[string]string {
	r.Reset()
	for n, b := range cliFiles() {
		r.Put(prefix+n, b)
	}
	for n, b := range hUnrelated {
		r.Put(n, []byte(b))
	}
	return hText(r.Tree())
}

type hMade struct {
	tree map[string]string
	res  Res
}

var hCache sync.Map

// alone gives what the step produces when nothing ran before.
func (s hStep) alone(r *Runner) hMade {
	if v, ok := hCache.Load(s); ok {
		return v.(hMade)
	}
	r.Reset()
	for n, b := range cliFiles() {
		r.Put(n, b)
	}
	base := r.Tree()
	res := r.Fresh(nil, s.args("", s.out, "")...)
	m := hMade{map[string]string{}, res}
	for k, v := range r.Tree() {
		if w, ok := base[k]; !ok || v != w {
			m.tree[k] = v
		}
	}
	hText(m.tree)
	hCache.Store(s, m)
	return m
}

// overlay adds what a step makes; false if a file is in the way of a directory or the reverse.
func overlay(t, made map[string]string) (map[string]string, bool) {
	r := map[string]string{}
	for k, v := range t {
		r[k] = v
	}
	for k, v := range made {
		bare := strings.TrimSuffix(k, "/")
		if _, ok := t[bare+"/"]; ok && k == bare {
			return t, false
		}
		for p := bare; p != "."; p = filepath.Dir(p) {
			if _, ok := t[p]; ok && (p != bare || k != bare) {
				return t, false
			}
		}
		r[k] = v
	}
	return r, true
}

func inside(out, p string) bool {
	p = strings.TrimSuffix(p, "/")
	return p == out || strings.HasPrefix(p, out+"/") || strings.HasPrefix(out, p+"/")
}

func evalC29(r *Runner, c *Case) []Finding {
	k := c.X.(hCase)
	var made []hMade
	for _, s := range k.steps {
		m := s.alone(r)
		name := cliCmds[s.cmd].name
		if !m.res.OK() {
			return finding("fails:"+name, "%s fails in an empty directory: %s", s, clip(m.res.Out, 500))
		}
		for p, v := range m.tree {
			if !inside(s.out, p) {
				return finding("elsewhere:"+name, "%s makes %s:\n%s", s, p, clip(v, 300))
			}
		}
		if len(m.tree) == 0 {
			return finding("nothing:"+name, "%s makes nothing", s)
		}
		made = append(made, m)
	}
	switch k.kind {
	case "history":
		want := hBase(r, "")
		for i, s := range k.steps {
			res := r.Fresh(nil, s.args("", s.out, "")...)
			got := hText(r.Tree())
			w, ok := overlay(want, made[i].tree)
			if f := hCompare("history", s, res, got, w, ok, want); f != nil {
				return f
			}
			want = got
		}
	case "existing":
		s := k.steps[0]
		hBase(r, "")
		switch k.pre {
		case "directory":
			r.Put(s.out+"/inner.txt", []byte("inner"))
		case "missing":
		default:
			for p, v := range made[0].tree {
				if strings.HasSuffix(p, "/") {
					continue
				}
				var b []byte
				switch k.pre {
				case "empty":
				case "short":
					b = []byte("z")
				case "long":
					b = []byte(v + strings.Repeat("\nleft over", 3000))
				case "same size":
					x := []byte(v)
					for i := range x {
						if x[i] != '\n' {
							x[i] ^= 1
						}
					}
					b = x
				case "same+1":
					b = []byte(v + "\n")
				case "binary":
					b = []byte("\xff\x00\xfe" + strings.Repeat("\x00", 9000))
				case "link":
					r.Put("linked/"+filepath.Base(p), []byte(strings.Repeat("old", 5000)))
					os.MkdirAll(filepath.Dir(filepath.Join(r.dir, p)), 0755)
					os.Symlink(filepath.Join(r.dir, "linked", filepath.Base(p)), filepath.Join(r.dir, p))
					continue
				}
				r.Put(p, b)
			}
		}
		before := hText(r.Tree())
		res := r.Fresh(nil, s.args("", s.out, "")...)
		got := hText(r.Tree())
		w, ok := overlay(before, made[0].tree)
		if k.pre == "link" {
			for p, v := range made[0].tree {
				if !strings.HasSuffix(p, "/") {
					if fi, err := os.Lstat(filepath.Join(r.dir, p)); err == nil && fi.Mode()&os.ModeSymlink != 0 {
						w["linked/"+filepath.Base(p)] = v
					}
				}
			}
		}
		return hCompare("existing "+k.pre, s, res, got, w, ok, before)
	case "spelling":
		s := k.steps[0]
		in, out := "", s.out
		switch k.alt {
		case 0:
			in, out = r.dir+"/", filepath.Join(r.dir, s.out)
		case 1:
			in, out = "./", "./"+s.out
		case 2:
			in, out = "in put/ä/", s.out
		case 3:
			in, out = "../"+filepath.Base(r.dir)+"/", "out/../"+s.out
		}
		pre := ""
		if k.alt == 2 {
			pre = in
		}
		before := hBase(r, pre)
		res := r.Fresh(nil, s.args(in, out, "")...)
		w, ok := overlay(before, made[0].tree)
		return hCompare("spelling", s, res, hText(r.Tree()), w, ok, before)
	case "environment":
		s := k.steps[0]
		before := hBase(r, "")
		res := r.Fresh(hEnvs[k.alt], s.args("", s.out, "")...)
		w, ok := overlay(before, made[0].tree)
		return hCompare("environment", s, res, hText(r.Tree()), w, ok, before)
	case "chain":
		p, s := k.steps[0], k.steps[1]
		r.Reset()
		for n, b := range cliFiles() {
			r.Put(n, b)
		}
		r.Fresh(nil, p.args("", p.out, "")...)
		mid, _ := r.Get(p.out)
		before := hText(r.Tree())
		if res := r.Fresh(nil, s.args("", s.out, p.out)...); !res.OK() || res.Crashed() {
			return finding("refused:"+cliCmds[s.cmd].name, "%s does not accept what %s wrote: %s\n%s", s, p, clip(res.Out, 500), clip(string(mid), 800))
		}
		first := hText(r.Tree())
		r.Reset()
		for n, b := range cliFiles() {
			r.Put(n, b)
		}
		r.Put("elsewhere.json", mid)
		alone := s
		res := r.Fresh(nil, alone.args("", s.out, "elsewhere.json")...)
		m := map[string]string{}
		for q, v := range hText(r.Tree()) {
			if _, ok := before[q]; !ok && q != "elsewhere.json" {
				m[q] = v
			}
		}
		w, ok := overlay(before, m)
		return hCompare("chain", s, res, first, w, ok, before)
	}
	return nil
}

func hCompare(kind string, s hStep, res Res, got, want map[string]string, ok bool, before map[string]string) []Finding {
	name := cliCmds[s.cmd].name
	if res.Crashed() {
		return finding("crash:"+name, "%s crashes: %s", s, clip(res.Out, 600))
	}
	if !ok { // a file where a directory must be, or the reverse
		if res.OK() {
			return finding("in-the-way:"+name, "%s reports success although something is in the way of its output", s)
		}
		for p, v := range before {
			if got[p] != v {
				return finding("damage:"+name, "%s fails and changes %s", s, p)
			}
		}
		return nil
	}
	if !res.OK() {
		return finding(strings.Fields(kind)[0]+"-fails:"+name, "%s (%s): exit %d: %s", s, kind, res.Exit, clip(res.Out, 500))
	}
	if d := diffTrees(got, want); d != "" {
		return finding(strings.Fields(kind)[0]+":"+name, "%s (%s): not as when run alone in an empty directory: %s", s, kind, d)
	}
	return nil
}

var hEnvs = []map[string]string{
	{"TZ": "Asia/Seoul"}, {"LANG": "ko_KR.UTF-8", "LC_ALL": "ko_KR.UTF-8"}, {"HOME": "/nonexistent", "USER": "kim", "LOGNAME": "kim", "USERNAME": "kim"},
	{"GOMAXPROCS": "1"}, {"TMPDIR": "/nonexistent"}, {"PWD": "/"}, {"HOSTNAME": "h", "EDITOR": "x", "OCTOPUS": "y", "DEBUG": "1", "NO_COLOR": "1"},
}

func hSteps(all []bool, sets []int, outs func(c *cliCmd) []string) []hStep {
	var r []hStep
	for ci := range cliCmds {
		for _, a := range all {
			for _, s := range sets {
				for _, o := range outs(&cliCmds[ci]) {
					if a && len(cliCmds[ci].opt) == 0 {
						continue
					}
					if cliCmds[ci].name == "init" && (a || s == 2) {
						continue
					}
					r = append(r, hStep{ci, a, s, o})
				}
			}
		}
	}
	return r
}

func hOuts(c *cliCmd) []string {
	if o := hOwn(c); o != "s" {
		return []string{o, "shared"}
	}
	return []string{"s", "shared"}
}

func exploreC29(x *Ctx, emit0 func(*Case) bool) {
	emit := func(k hCase) bool {
		tr := []string{k.kind}
		for _, s := range k.steps {
			tr = append(tr, s.String())
		}
		if k.pre != "" {
			tr = append(tr, "with "+k.pre+" output")
		}
		if k.kind == "spelling" || k.kind == "environment" {
			tr = append(tr, fmt.Sprint("variant ", k.alt))
		}
		atomic.AddInt64(&x.states, 1)
		atomic.AddInt64(&x.trans, int64(len(k.steps)))
		return emit0(&Case{Name: k.kind, Trace: tr, X: k})
	}
	both := []bool{false, true}
	singles := hSteps(both, []int{1, 2}, hOuts)
	deep := hSteps(both, []int{1}, func(c *cliCmd) []string {
		if o := hOwn(c); filepath.Ext(o) == "" {
			return []string{"new/deep/er"}
		}
		return nil
	})
	for _, s := range append(append([]hStep{}, singles...), deep...) {
		for _, p := range []string{"missing", "empty", "short", "long", "same size", "same+1", "binary", "link", "directory"} {
			if !emit(hCase{kind: "existing", steps: []hStep{s}, pre: p}) {
				return
			}
		}
		for i := 0; i < 4; i++ {
			emit(hCase{kind: "spelling", steps: []hStep{s}, alt: i})
		}
		for i := range hEnvs {
			emit(hCase{kind: "environment", steps: []hStep{s}, alt: i})
		}
	}
	for _, p := range hSteps(both, []int{1, 2}, func(c *cliCmd) []string {
		if c.name == "init" || strings.HasPrefix(c.name, "import") {
			return []string{"made.json"}
		}
		return nil
	}) {
		for _, s := range singles {
			n := cliCmds[s.cmd].name
			if n != "init" && !strings.HasPrefix(n, "import") {
				emit(hCase{kind: "chain", steps: []hStep{p, s}})
			}
		}
	}
	first, second := singles, hSteps([]bool{false}, []int{1}, hOuts)
	if x.Thorough {
		second = singles
	}
	for _, a := range first {
		for _, b := range second {
			if !emit(hCase{kind: "history", steps: []hStep{a, b}}) {
				return
			}
		}
	}
	if x.Thorough {
		one := hSteps([]bool{false}, []int{1}, hOuts)
		two := hSteps([]bool{false}, []int{2}, hOuts)
		for _, a := range two {
			for _, b := range one {
				for _, c := range two {
					if !emit(hCase{kind: "history", steps: []hStep{a, b, c}}) {
						return
					}
				}
			}
		}
	}
}

func init() {
	register("C29", func(x *Ctx) {
		x.Pool(evalC29, func(emit func(*Case) bool) { exploreC29(x, emit) })
	})
}
