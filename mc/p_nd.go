package main

import (
	"fmt"
	"strings"
	"sync/atomic"
)

// ---- C15: determinism ----------------------------------------------------------------

type ndCase struct {
	files map[string][]byte
	cmd   int
	all   bool
	pairs bool
	bad   string // the choices under which the output differed
}

var ndGorm = func() int {
	for i := range cliCmds {
		if cliCmds[i].name == "generate gorm" {
			return i
		}
	}
	return -1
}()

const ndBase = "seed=1"

func (k *ndCase) step() hStep { return hStep{k.cmd, k.all, 1, "out/" + hOwn(&cliCmds[k.cmd])} }

func (k *ndCase) run(r *Runner, spec string, traced bool) (map[string]string, Res, ndTraced) {
	r.Clear("out")
	r.Put("out/.keep", nil)
	s := k.step()
	res, t := r.nd(spec, traced, s.args("", s.out, "")...)
	return hText(r.subTreeRaw("out")), res, t
}

func evalC15(r *Runner, c *Case) []Finding {
	k := c.X.(*ndCase)
	for n, b := range k.files {
		r.Put(n, b)
	}
	if k.cmd == ndGorm && k.all {
		defer r.Recycle() // the embedded types given stay known in the process
	}
	if c.S != nil {
		r.PutSchema("in.json", c.S)
	}
	name := cliCmds[k.cmd].name
	want, wres, base := k.run(r, ndBase, true)
	n := int64(1)
	defer func() { ndRuns.Add(n) }()
	differs := func(spec string) []Finding {
		n++
		got, res, _ := k.run(r, spec, false)
		d := diffTrees(got, want)
		if res.Exit != wres.Exit {
			d = fmt.Sprintf("exit %d, not %d: %s", res.Exit, wres.Exit, clip(res.Out, 300))
		}
		if d == "" {
			return nil
		}
		k.bad = spec
		return finding("differs:"+name, "%s: the output is not always the same; choices %s (c=<map iteration in function#occurrence>:<start>):\n%s", k.step(), spec, d)
	}
	if r.fresh {
		// repeat what the worker found, in processes of their own
		if k.bad == "" {
			return nil
		}
		return differs(k.bad)
	}
	for _, sp := range []string{ndBase, "seed=2;shift=86461", "seed=3;shift=-40000000", "seed=4;all=1", "seed=5;all=2", "all=3;seed=1", "seed=1;all=4", "seed=1;all=5", "seed=1;all=6", "seed=1;all=7", "seed=6;shift=1", "seed=7"} {
		if f := differs(sp); f != nil {
			return f
		}
	}
	// every single deviation, then every two
	type dev struct{ p, v int }
	var devs []dev
	for p, pt := range base.Points {
		for v := 1; v < 8; v++ {
			if pt.N <= 8 && v >= pt.N && v != 7 {
				continue
			}
			devs = append(devs, dev{p, v})
		}
	}
	ndChoice.Add(int64(len(base.Points)))
	for _, d := range devs {
		if f := differs(fmt.Sprintf("%s;c=%s:%d", ndBase, base.Points[d.p].Site, d.v)); f != nil {
			return f
		}
	}
	if k.pairs {
		for i, d := range devs {
			for _, e := range devs[i+1:] {
				if e.p == d.p || d.v > 2 || e.v > 2 {
					continue
				}
				if f := differs(fmt.Sprintf("%s;c=%s:%d,%s:%d", ndBase, base.Points[d.p].Site, d.v, base.Points[e.p].Site, e.v)); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

var ndRuns, ndChoice atomic.Int64

func exploreC15(x *Ctx, emit func(*Case) bool) {
	files := func(s, t *Schema) map[string][]byte {
		m := map[string][]byte{}
		for n, b := range cliFiles() {
			m[n] = b
		}
		if s != nil {
			m["in.json"] = s.JSON()
		}
		m["in2.json"] = t.JSON()
		return m
	}
	each := func(c Case, fs map[string][]byte, imports, pairs bool) bool {
		for ci := range cliCmds {
			imp := strings.HasPrefix(cliCmds[ci].name, "import") || cliCmds[ci].name == "init"
			if imp && !imports {
				continue
			}
			for _, all := range []bool{false, true} {
				if all && len(cliCmds[ci].opt) == 0 {
					continue
				}
				d := c
				d.Trace = append(append([]string{}, c.Trace...), cliCmds[ci].name+map[bool]string{true: " with options"}[all])
				d.X = &ndCase{files: fs, cmd: ci, all: all, pairs: pairs}
				if !emit(&d) {
					return false
				}
			}
		}
		return true
	}
	seeds := append(stdSeeds(), Seed{"refs", seedRefs()}, Seed{"embed", seedEmbed()}, Seed{"py", seedPy()}, Seed{"cli", cliSchema(1)}, Seed{"cli3", cliSchema(3)})
	for i, sd := range seeds {
		t := seeds[(i+1)%len(seeds)].S
		fs := files(sd.S, t)
		flat := sd.S.Clone()
		for _, tb := range flat.Tables {
			for _, c := range tb.Columns {
				c.Ref = nil
			}
		}
		if sd.Name == "keys" || sd.Name == "groups" || sd.Name == "many" {
			fs["in.sql"] = []byte(renderDDL(dropEnums(flat), fewStyles()[0]))
			fs["in.ojson"] = renderOjson(flat, true)
			fs["in.mdj"] = renderUML(flat, make([]int, len(umlRadix)))
			fs["in.xlsx"] = renderXlsx(dropEnums(flat), make([]int, len(xlsxRadix)))
		}
		if !each(Case{Name: sd.Name + " to " + seeds[(i+1)%len(seeds)].Name, S: sd.S}, fs, true, x.Thorough) {
			return
		}
	}
	// neighbouring states: diffs with few changes, generators on edited schemas
	a := alphaPairs()
	if !x.Thorough {
		a.Types, a.Sizes, a.Defaults, a.Descs = []string{"datetime", "decimal"}, nil, nil, nil
		a.OnUpdates, a.Values, a.TblDescs, a.Flags = nil, nil, nil, "pu"
	}
	small := []Seed{{"two", seedTwo()}, {"cli", cliSchema(1)}}
	if x.Thorough {
		small = append(small, Seed{"groups", seedGroups()}, Seed{"refs", seedRefs()})
	}
	for _, sd := range small {
		fs := files(nil, sd.S)
		done := false
		x.Explore([]Seed{sd}, []*Alphabet{a}, saneSchema, func(c *Case) bool {
			if !done && !each(*c, fs, false, false) {
				done = true
			}
			return !done
		})
	}
}

// subTreeRaw is subTree without reading workbooks.
func (r *Runner) subTreeRaw(dir string) map[string]string {
	m := map[string]string{}
	for k, v := range r.Tree() {
		if rel, ok := strings.CutPrefix(k, dir+"/"); ok && rel != "" {
			m[rel] = v
		}
	}
	return m
}

func init() {
	register("C15", func(x *Ctx) {
		x.useND()
		x.Pool(evalC15, func(emit func(*Case) bool) {
			exploreC15(x, func(c *Case) bool {
				atomic.AddInt64(&x.states, 1)
				return emit(c)
			})
		})
		x.Note("schedules", ndRuns.Load())
		x.Note("choice_points", ndChoice.Load())
		x.trans = ndRuns.Load()
	})
}
