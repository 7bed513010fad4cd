package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// ---- C31: what an importer writes is a schema every command accepts --------

// pipeCase is the input of an import command.
type pipeCase struct {
	kind, file string
	data       []byte
	opts       []string
}

func evalC31(r *Runner, c *Case) []Finding {
	k := c.X.(*pipeCase)
	r.Put(k.file, k.data)
	r.Clear("o.json")
	imp := append([]string{"import", k.kind, "-i", k.file, "-o", "o.json"}, k.opts...)
	fail := func(sig, format string, a ...interface{}) []Finding {
		f := finding(sig, format, a...)
		f[0].Msg += "\ninput of " + cmdLine(imp) + ": " + strconv.Quote(clip(string(k.data), 1500))
		return tag(k.kind, f)
	}
	res := r.Run(imp...)
	if res.Crashed() || res.Timeout {
		return fail("crashes", "%s crashes: %s", cmdLine(imp), clip(res.Out, 900))
	}
	if !res.OK() {
		if b, ok := r.Get("o.json"); ok {
			return fail("rejected-but-written", "%s fails, but writes %q", cmdLine(imp), clip(string(b), 300))
		}
		return nil
	}
	b, ok := r.Get("o.json")
	if !ok {
		return fail("no-schema", "%s writes no schema", cmdLine(imp))
	}
	s, err := parseSchema(b)
	if err != nil {
		return fail("not-json", "the schema is not JSON: %v", err)
	}
	if err := Valid(s); err != nil {
		return fail("invalid-schema", "the schema is invalid: %v\n%s", err, clip(string(b), 1000))
	}
	n, _ := json.Marshal(Norm(s))
	if m, _ := json.Marshal(s); string(m) != string(n) {
		return fail("not-normal", "the schema is not in the normal form of schema files:\n%s\nwant\n%s", clip(string(m), 1000), clip(string(n), 1000))
	}
	fits := allFit(s)
	unique := uniqueNames(s)
	if strings.ContainsAny(s.Name+s.Version, "/\x00") {
		fits = false // names of output files
	}
	for _, t := range s.Tables {
		if strings.ContainsAny(t.Name+t.Group, "/\x00") || len(t.Name) > 200 || badSheet(t.Group) {
			fits = false
		}
	}
	for _, cmd := range outCmds {
		out, res := r.runOut(cmd, nil, "o.json", "o.json")
		a := cmd.args(nil, "o.json", "o.json")
		if f := noCrash(res, a, fits); f != nil {
			return fail(cmd.Name+":"+f[0].Sig, "%s\nschema: %s", f[0].Msg, clip(string(b), 1000))
		}
		if res.OK() && len(out) == 0 && len(s.Tables) > 0 {
			return fail(cmd.Name+":no-output", "%s exits 0 but writes nothing", cmdLine(a))
		}
		if cmd.Name == "md" && res.OK() && unique {
			_, _, cs, err := parseMD(out["o.md"])
			if err != nil || len(cs) > 0 {
				return fail("self-diff", "the schema differs from itself: %v %v", cs, err)
			}
		}
	}
	if again, ok := r.Get("o.json"); !ok || string(again) != string(b) {
		return fail("schema-altered", "a command altered the schema file")
	}
	return nil
}

func badSheet(g string) bool {
	return len([]rune(g)) > 31 || strings.ContainsAny(g, ":\\/?*[]") || strings.HasPrefix(g, "'") || strings.HasSuffix(g, "'")
}

func exploreC31(x *Ctx, emit0 func(*Case) bool) {
	emit := func(name, kind, file string, data []byte, opts ...string) bool {
		return emit0(&Case{Name: name, X: &pipeCase{kind, file, data, opts}})
	}
	put := func(name, kind, file string, data []byte, opts ...string) bool {
		x.states++
		x.trans++
		return emit(name, kind, file, data, opts...)
	}
	// scripts of the spelling catalogue
	for _, sp := range colSpellings() {
		all := colSpells(sp, x.Thorough)
		per := 40
		if x.Thorough {
			per = 1
		}
		for i := 0; i < len(all); i += per {
			var defs []string
			for j := i; j < i+per && j < len(all); j++ {
				defs = append(defs, fmt.Sprintf("`c%d` %s", j, all[j].ddl))
			}
			if !put(fmt.Sprintf("columns %s %d..", sp.ddl, i), "mysql", "in.sql", []byte("CREATE TABLE `t` (\n"+strings.Join(defs, ",\n")+"\n);\n")) {
				return
			}
		}
	}
	for i, t := range tableWraps {
		for j, cs := range consSpells {
			src := t.pre + "`a` int, B bigint, c smallint, d varchar(20), " + cs.ddl + t.post
			if !put(fmt.Sprintf("constraint %d %d", i, j), "mysql", "in.sql", []byte(src)) {
				return
			}
		}
	}
	for i, s := range specialDDLs() {
		put(fmt.Sprintf("special script %d", i), "mysql", "in.sql", []byte(s.sql))
	}
	// files that may be anything
	exploreRaw(x, func(c *Case) bool {
		k := c.X.(*rawCase)
		for _, a := range k.cmds {
			if a[0] == "import" {
				if !emit0(&Case{Name: c.Name, Trace: c.Trace, X: &pipeCase{a[1], k.file, k.data, nil}}) {
					return false
				}
			}
		}
		return true
	})
	// renderings of models
	n := 0
	styles := allStyles()
	uml := allVecs(umlRadix)
	lay := pairVecs(xlsxRadix)
	render := func(c *Case) bool {
		n++
		name := c.Name + " " + strings.Join(c.Trace, " ")
		// seeds in every format, other states in one format (thorough: all) in turn
		ok := true
		for i, put := range []func() bool{
			func() bool {
				return emit(name, "mysql", "in.sql", []byte(renderDDL(fixImportable(c.S), styles[n/4%len(styles)])))
			},
			func() bool { return emit(name, "ojson", "in.ojson", renderOjson(c.S, n/4%2 == 0)) },
			func() bool { return emit(name, "staruml", "in.mdj", renderUML(c.S, uml[n/4%len(uml)])) },
			func() bool {
				return !xlsxAble(c.S) || emit(name, "xlsx", "in.xlsx", renderXlsx(dropEnums(c.S), lay[n/4%len(lay)]))
			},
		} {
			if ok && (x.Thorough || len(c.Trace) == 0 || n%4 == i) {
				ok = put()
			}
		}
		return ok
	}
	x.Explore(append(stdSeeds(), Seed{"refs", seedRefs()}), []*Alphabet{alphaFull()}, uniqueNames, render)
}

func init() {
	register("C31", func(x *Ctx) {
		x.Pool(evalC31, func(emit func(*Case) bool) { exploreC31(x, emit) })
	})
}
