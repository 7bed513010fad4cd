package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// ---- C26: options ------------------------------------------------------------------

type cliOpt struct {
	long, short, env string
	v1, v2           string // v1 takes effect, v2 is another value
	flag             bool
	same             bool // v2 has the effect of leaving the option out
	quiet            bool // shared with "diff liquibase", documented there only: need not take effect
}

type cliCmd struct {
	name string
	verb []string
	req  []cliOpt // required; v1 and v2 name files
	opt  []cliOpt
}

func cliIO(in1, in2, out1, out2 string) []cliOpt {
	return []cliOpt{{long: "input", short: "i", env: "OCTOPUS_INPUT", v1: in1, v2: in2}, {long: "output", short: "o", env: "OCTOPUS_OUTPUT", v1: out1, v2: out2}}
}

var (
	oGroups = cliOpt{long: "groups", short: "g", env: "OCTOPUS_GROUPS", v1: "alpha", v2: "beta,alpha"}
	oSuffix = cliOpt{long: "uniqueNameSuffix", short: "u", env: "OCTOPUS_UNIQUE_NAME_SUFFIX", v1: "_uq", v2: "_key"}
	oComm   = cliOpt{long: "comments", short: "c", env: "OCTOPUS_COMMENTS", flag: true}
	oPrefix = cliOpt{long: "prefix", short: "p", env: "OCTOPUS_PREFIX", v1: "alpha:Aa,beta:Bb", v2: "Pre"}
	oRemove = cliOpt{long: "removePrefix", short: "r", env: "OCTOPUS_REMOVE_PREFIX", v1: "tbl_", v2: "us,tbl_"}
)

func (o cliOpt) as(short string) cliOpt { o.short = short; return o }

var diffOpts = []cliOpt{
	{long: "author", short: "a", env: "OCTOPUS_AUTHOR", v1: "kim", v2: "lee"}, oGroups, oSuffix, oComm,
}

func quietly(os []cliOpt, ns ...string) []cliOpt {
	var r []cliOpt
	for _, o := range os {
		o.quiet = contains(ns, o.long)
		r = append(r, o)
	}
	return r
}

var diffReq = []cliOpt{
	{long: "from", short: "f", env: "OCTOPUS_FROM", v1: "in.json", v2: "in3.json"},
	{long: "to", short: "t", env: "OCTOPUS_TO", v1: "in2.json", v2: "in3.json"},
}

func outOpt(a, b string) cliOpt {
	return cliOpt{long: "output", short: "o", env: "OCTOPUS_OUTPUT", v1: a, v2: b}
}

var cliCmds = []cliCmd{
	{"init", []string{"init"}, nil, []cliOpt{{long: "output", short: "o", env: "OCTOPUS_OUTPUT", v1: "a.json", v2: "b.json"}}},
	{"import mysql", []string{"import", "mysql"}, cliIO("in.sql", "in2.sql", "o.json", "p.json"), []cliOpt{
		{long: "author", short: "a", env: "OCTOPUS_AUTHOR", v1: "kim", v2: "lee"},
		{long: "excludes", short: "x", env: "OCTOPUS_EXCLUDES", v1: "user", v2: "tbl_team,user"},
		{long: "version", short: "v", env: "OCTOPUS_VERSION", v1: "3.1", v2: "4"}}},
	{"import ojson", []string{"import", "ojson"}, cliIO("in.ojson", "in2.ojson", "o.json", "p.json"), nil},
	{"import staruml", []string{"import", "staruml"}, cliIO("in.mdj", "in2.mdj", "o.json", "p.json"), nil},
	{"import xlsx", []string{"import", "xlsx"}, cliIO("in.xlsx", "in2.xlsx", "o.json", "p.json"), nil},
	{"export dbml", []string{"export", "dbml"}, cliIO("in.json", "in2.json", "o.dbml", "p.dbml"), []cliOpt{oGroups}},
	{"export mysql", []string{"export", "mysql"}, cliIO("in.json", "in2.json", "o.sql", "p.sql"), []cliOpt{oGroups, oSuffix}},
	{"export quickdbd", []string{"export", "quickdbd"}, cliIO("in.json", "in2.json", "o.txt", "p.txt"), nil},
	{"export xlsx", []string{"export", "xlsx"}, cliIO("in.json", "in2.json", "o.xlsx", "p.xlsx"), []cliOpt{{long: "useNullColumn", env: "OCTOPUS_USE_NULL_COLUMN", flag: true}}},
	{"generate gorm", []string{"generate", "gorm"}, cliIO("in.json", "in2.json", "o.go", "p"), []cliOpt{
		{long: "pointerAssociation", short: "a", env: "OCTOPUS_POINTER_ASSOCIATION", flag: true},
		{long: "embed", short: "e", env: "OCTOPUS_EMBED", v1: "IdName:id,name", v2: "Named:name"},
		oGroups, {long: "package", short: "k", env: "OCTOPUS_PACKAGE", v1: "foo", v2: "bar"}, oPrefix, oRemove, oSuffix}},
	{"generate graphql", []string{"generate", "graphql"}, cliIO("in.json", "in2.json", "o", "p"), []cliOpt{
		{long: "graphqlPackage", short: "p", env: "OCTOPUS_GRAPHQL_PACKAGE", v1: "foo.bar", v2: "baz"}}},
	{"generate kt", []string{"generate", "kt"}, cliIO("in.json", "in2.json", "o", "p"), []cliOpt{
		{long: "annotation", short: "a", env: "OCTOPUS_ANNOTATION", v1: "alpha:@Foo,beta:@Bar", v2: "@Baz"},
		oGroups, {long: "idEntity", short: "e", env: "OCTOPUS_ID_ENTITY", v1: "IdEntity", v2: "HasId"},
		{long: "package", short: "p", env: "OCTOPUS_PACKAGE", v1: "com.foo", v2: "com.bar"},
		oPrefix.as("f"), {long: "relation", short: "l", env: "OCTOPUS_RELATION", v1: "VRelation", v2: "Other", same: true},
		oRemove.as("d"), {long: "reposPackage", short: "r", env: "OCTOPUS_REPOS_PACKAGE", v1: "com.foo.repo", v2: "repo"},
		oSuffix.as("q"), {long: "useUTC", short: "u", env: "OCTOPUS_USE_UTC", flag: true}}},
	{"generate liquibase", []string{"generate", "liquibase"}, cliIO("in.json", "in2.json", "o.yaml", "p.yaml"), []cliOpt{oGroups, oSuffix, oComm}},
	{"generate plantuml", []string{"generate", "plantuml"}, cliIO("in.json", "in2.json", "o.puml", "p"), nil},
	{"generate pb", []string{"generate", "pb"}, cliIO("in.json", "in2.json", "o.proto", "p.proto"), []cliOpt{
		{long: "goPackage", env: "OCTOPUS_GO_PACKAGE", v1: "foo/bar", v2: "baz"}, oGroups,
		{long: "package", short: "p", env: "OCTOPUS_PACKAGE", v1: "foo.bar", v2: "baz"}, oPrefix.as("f"), oRemove.as("d"),
		{long: "relationTagDecr", env: "OCTOPUS_RELATION_TAG_DECR", flag: true},
		{long: "relationTagStart", short: "s", env: "OCTOPUS_RELATION_TAG_START", v1: "30", v2: "40"}}},
	{"generate sqlalchemy", []string{"generate", "sqlalchemy"}, cliIO("in.json", "in2.json", "o.py", "p"), []cliOpt{oGroups, oPrefix, oRemove, oSuffix, {long: "useUTC", short: "t", env: "OCTOPUS_USE_UTC", flag: true}}},
	{"diff flyway", []string{"diff", "flyway"}, append(append([]cliOpt{}, diffReq...), outOpt("o.sql", "p.sql")), quietly(diffOpts, "author")},
	{"diff liquibase", []string{"diff", "liquibase"}, append(append([]cliOpt{}, diffReq...), outOpt("o.yaml", "p.yaml")), diffOpts},
	{"diff md", []string{"diff", "md"}, append(append([]cliOpt{}, diffReq...), outOpt("o.md", "p.md")), quietly(diffOpts, "author", "uniqueNameSuffix")},
}

// cliSchema k: schemas in which every option shows.
func cliSchema(k int) *Schema {
	s := &Schema{Author: "ann", Name: "shop", Version: "1.0", Tables: []*Table{
		{Name: "user", Group: "alpha", Desc: "users", Columns: []*Col{
			{Name: "id", Type: "int64", PK: true, AutoInc: true, NotNull: true, Desc: "key"},
			{Name: "name", Type: "varchar", Size: 40, Unique: true, NotNull: true, Desc: "login"},
			{Name: "mail", Type: "varchar", Size: 90, Unique: true},
			{Name: "team_id", Type: "int64", Ref: &Ref{"tbl_team", "id", "n:1"}},
			{Name: "boss_id", Type: "int64", Ref: &Ref{"user", "id", "n:1"}},
			{Name: "created_at", Type: "datetime", NotNull: true}, {Name: "updated_at", Type: "datetime", NotNull: true}, {Name: "seen_at", Type: "datetime"}}},
		{Name: "tbl_team", Group: "beta", Desc: "teams", Columns: []*Col{
			{Name: "id", Type: "int64", PK: true, AutoInc: true, NotNull: true},
			{Name: "name", Type: "varchar", Size: 40, Unique: true},
			{Name: "code", Type: "char", Size: 4, Unique: true},
			{Name: "made_at", Type: "datetime"}}},
		{Name: "log", Columns: []*Col{{Name: "msg", Type: "text16", Desc: "text"}}},
	}}
	u, t := s.Tables[0], s.Tables[1]
	switch k {
	case 2:
		u.Desc = "all users"
		u.Columns[1].Unique = false
		u.Columns[2].Size, u.Columns[2].Desc = 80, "mail address"
		u.Columns = append(u.Columns, &Col{Name: "age", Type: "int32", Desc: "years", Unique: true})
		t.Columns = append(t.Columns, &Col{Name: "town", Type: "varchar", Size: 30, Unique: true, Desc: "seat"})
		s.Tables = append(s.Tables, &Table{Name: "tag", Group: "alpha", Desc: "tags", Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "a", Type: "int32", Unique: true, Desc: "x"}, {Name: "b", Type: "int32", Unique: true}}})
	case 3:
		s.Tables = s.Tables[:2]
		u.Columns = u.Columns[:4]
		t.Name = "team"
		u.Columns[3].Ref.Table = "team"
	}
	return s
}

var cliFiles = sync.OnceValue(func() map[string][]byte {
	m := map[string][]byte{"in3.json": cliSchema(3).JSON()}
	for k, n := range []string{"in", "in2"} {
		m[n+".json"] = cliSchema(k + 1).JSON()
		s := cliSchema(k + 1)
		for _, t := range s.Tables {
			for _, c := range t.Columns {
				c.Ref = nil
			}
		}
		m[n+".sql"] = []byte(renderDDL(s, fewStyles()[0]))
		m[n+".ojson"] = renderOjson(s, true)
		m[n+".mdj"] = renderUML(s, make([]int, len(umlRadix)))
		m[n+".xlsx"] = renderXlsx(s, make([]int, len(xlsxRadix)))
	}
	return m
})

func putCliInputs(r *Runner) {
	for n, b := range cliFiles() {
		r.Put(n, b)
	}
}

var cliInputs = []string{"in.json", "in2.json", "in3.json", "in.sql", "in2.sql", "in.ojson", "in2.ojson", "in.mdj", "in2.mdj", "in.xlsx", "in2.xlsx"}

// a way of giving an option
type cliUse struct {
	opt int // index into req+opt
	how int // 0 long, 1 --long=value, 2 alias, 3 environment
	two bool
	val string // for flags: "", "true", "false"
}

type cliCase struct {
	cmd  int
	kind string // same, effect, missing
	a, b []cliUse
	rev  bool
	opt  string
	miss int
}

func (c *cliCmd) all() []cliOpt { return append(append([]cliOpt{}, c.req...), c.opt...) }

func (c *cliCmd) build(us []cliUse, skip int, rev bool) (args []string, env map[string]string) {
	env = map[string]string{}
	all := c.all()
	given := map[int]bool{}
	var parts [][]string
	for _, u := range us {
		o := all[u.opt]
		given[u.opt] = true
		v := o.v1
		if u.two {
			v = o.v2
		}
		if o.flag {
			v = u.val
			if v == "" {
				v = "true"
			}
		}
		switch u.how {
		case 0:
			if o.flag && u.val == "" {
				parts = append(parts, []string{"--" + o.long})
			} else if o.flag {
				parts = append(parts, []string{"--" + o.long + "=" + v})
			} else {
				parts = append(parts, []string{"--" + o.long, v})
			}
		case 1:
			parts = append(parts, []string{"--" + o.long + "=" + v})
		case 2:
			if o.flag && u.val == "" {
				parts = append(parts, []string{"-" + o.short})
			} else if o.flag {
				parts = append(parts, []string{"-" + o.short + "=" + v})
			} else {
				parts = append(parts, []string{"-" + o.short, v})
			}
		case 3:
			env[o.env] = v
		}
	}
	for k := range c.req {
		if !given[k] && k != skip {
			parts = append(parts, []string{"--" + c.req[k].long, c.req[k].v1})
		}
	}
	if rev {
		for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
			parts[i], parts[j] = parts[j], parts[i]
		}
	}
	args = append(args, c.verb...)
	for _, p := range parts {
		args = append(args, p...)
	}
	return
}

func (r *Runner) cliRun(c *cliCmd, us []cliUse, skip int, rev bool) (map[string]string, Res, string) {
	r.Reset2(cliInputs)
	args, env := c.build(us, skip, rev)
	res := r.Fresh(env, args...)
	tree := r.Tree()
	for k, v := range tree {
		if strings.HasSuffix(k, ".xlsx") {
			if t, err := xlsxText([]byte(v)); err == nil {
				tree[k] = t
			}
		}
	}
	var es []string
	for k, v := range env {
		es = append(es, k+"="+v)
	}
	sort.Strings(es)
	return tree, res, strings.TrimSpace(strings.Join(es, " ") + " " + cmdLine(args))
}

func evalC26(r *Runner, c *Case) []Finding {
	k := c.X.(cliCase)
	cmd := &cliCmds[k.cmd]
	if _, ok := r.Get("in.json"); !ok {
		putCliInputs(r)
	}
	before := r.Tree()
	switch k.kind {
	case "missing":
		r.Reset2(cliInputs)
		args, env := cmd.build(k.a, k.miss, false)
		res := r.Fresh(env, args...)
		if res.OK() {
			return finding("missing-accepted", "%s succeeds without --%s", cmdLine(args), cmd.req[k.miss].long)
		}
		if res.Crashed() {
			return finding("missing-crash", "%s crashes: %s", cmdLine(args), clip(res.Out, 500))
		}
		if d := diffTrees(r.Tree(), before); d != "" {
			return finding("missing-output", "%s fails but leaves something behind: %s", cmdLine(args), d)
		}
		return nil
	}
	ta, ra, ca := r.cliRun(cmd, k.a, -1, false)
	tb, rb, cb := r.cliRun(cmd, k.b, -1, k.rev)
	sig := cmd.name + ":" + k.opt
	if !ra.OK() || ra.Crashed() {
		return finding("fails:"+sig, "%s: exit %d\n%s", ca, ra.Exit, clip(ra.Out, 600))
	}
	if !rb.OK() || rb.Crashed() {
		return finding("fails:"+sig, "%s: exit %d\n%s", cb, rb.Exit, clip(rb.Out, 600))
	}
	d := diffTrees(tb, ta)
	if k.kind == "same" && d != "" {
		return finding("differs:"+sig, "not the same:\n  %s\n  %s\n%s", ca, cb, d)
	}
	if k.kind == "effect" && d == "" {
		return finding("no-effect:"+sig, "the same output for\n  %s\n  %s", ca, cb)
	}
	return nil
}

// Reset2 empties the scratch directory except for the named files.
func (r *Runner) Reset2(keep []string) {
	k := map[string]bool{}
	for _, n := range keep {
		k[n] = true
	}
	for _, n := range r.list() {
		if !k[n] {
			r.Clear(n)
		}
	}
}

func useText(us []cliUse, c *cliCmd) string {
	a, e := c.build(us, -1, false)
	return fmt.Sprint(e, a[len(c.verb):])
}

func exploreC26(x *Ctx, emit0 func(*Case) bool) {
	seen := map[string]bool{}
	emit := func(ci int, k cliCase) bool {
		k.cmd = ci
		c := &cliCmds[ci]
		t := fmt.Sprintf("%s %s: %s vs %s rev=%v miss=%d", c.name, k.kind, useText(k.a, c), useText(k.b, c), k.rev, k.miss)
		if seen[t] {
			return true
		}
		seen[t] = true
		atomic.AddInt64(&x.states, 1)
		atomic.AddInt64(&x.trans, int64(len(k.a)+len(k.b)))
		return emit0(&Case{Name: c.name, Trace: []string{t}, X: k})
	}
	for ci := range cliCmds {
		c := &cliCmds[ci]
		all := c.all()
		ways := func(o cliOpt) []int {
			w := []int{0}
			if !o.flag {
				w = append(w, 1)
			}
			if o.short != "" {
				w = append(w, 2)
			}
			return append(w, 3)
		}
		for i, o := range all {
			base := []cliUse{{opt: i}}
			if i < len(c.req) {
				for _, alone := range []bool{false, true} {
					us := []cliUse{}
					if alone { // the other required options by environment
						for j := range c.req {
							if j != i {
								us = append(us, cliUse{opt: j, how: 3})
							}
						}
					}
					emit(ci, cliCase{kind: "missing", a: us, miss: i})
				}
			}
			// every way of giving it, in every position relative to the others
			for _, h := range ways(o) {
				for _, two := range []bool{false, true} {
					if o.flag && two {
						continue
					}
					for _, rev := range []bool{false, true} {
						emit(ci, cliCase{kind: "same", opt: o.long, a: []cliUse{{opt: i, two: two}}, b: []cliUse{{opt: i, how: h, two: two}}, rev: rev})
					}
				}
			}
			// it takes effect
			if i >= len(c.req) && !o.quiet {
				emit(ci, cliCase{kind: "effect", opt: o.long, a: nil, b: base})
			}
			if !o.flag && !o.quiet {
				if o.same {
					emit(ci, cliCase{kind: "same", opt: o.long, a: nil, b: []cliUse{{opt: i, two: true}}})
				}
				emit(ci, cliCase{kind: "effect", opt: o.long, a: base, b: []cliUse{{opt: i, two: true}}})
			}
			// the command line wins over the environment
			for _, h := range ways(o) {
				if h == 3 {
					continue
				}
				if o.flag {
					off := cliUse{opt: i, how: h, val: "false"}
					var plain []cliUse
					emit(ci, cliCase{kind: "same", opt: o.long, a: plain, b: []cliUse{{opt: i, how: 3, val: "true"}, off}})
					emit(ci, cliCase{kind: "same", opt: o.long, a: base, b: []cliUse{{opt: i, how: 3, val: "false"}, {opt: i, how: h}}})
					emit(ci, cliCase{kind: "same", opt: o.long, a: plain, b: []cliUse{off}})
				} else {
					emit(ci, cliCase{kind: "same", opt: o.long, a: base, b: []cliUse{{opt: i, how: 3, two: true}, {opt: i, how: h}}})
					emit(ci, cliCase{kind: "same", opt: o.long, a: []cliUse{{opt: i, two: true}}, b: []cliUse{{opt: i, how: 3}, {opt: i, how: h, two: true}}})
				}
			}
			if o.flag {
				for _, v := range []string{"true", "1"} {
					emit(ci, cliCase{kind: "same", opt: o.long, a: base, b: []cliUse{{opt: i, how: 3, val: v}}})
				}
				for _, v := range []string{"false", "0"} {
					emit(ci, cliCase{kind: "same", opt: o.long, a: nil, b: []cliUse{{opt: i, how: 3, val: v}}})
				}
			}
		}
		// two options given in every pair of ways
		for i := range all {
			for j := range all {
				if i == j || !x.Thorough && i > j {
					continue
				}
				for _, hi := range ways(all[i]) {
					for _, hj := range ways(all[j]) {
						if hi == 1 || hj == 1 {
							continue
						}
						for _, rev := range []bool{false, true} {
							if rev && !x.Thorough {
								continue
							}
							if !emit(ci, cliCase{kind: "same", opt: all[i].long + "+" + all[j].long, a: []cliUse{{opt: i}, {opt: j}}, b: []cliUse{{opt: i, how: hi}, {opt: j, how: hj}}, rev: rev}) {
								return
							}
						}
					}
				}
			}
		}
		// everything at once: every choice of ways (as far as the bound goes), and pairs of values
		n := len(all)
		max := 1 << 6
		if x.Thorough {
			max = 1 << 12
		}
		idx := make([]int, n)
		for cnt := 0; cnt < max; cnt++ {
			var us, ref []cliUse
			for i := range all {
				w := ways(all[i])
				us = append(us, cliUse{opt: i, how: w[idx[i]%len(w)]})
				ref = append(ref, cliUse{opt: i})
			}
			if !emit(ci, cliCase{kind: "same", opt: "all", a: ref, b: us}) {
				return
			}
			k := 0
			for k < n {
				idx[k]++
				if idx[k] < len(ways(all[k])) {
					break
				}
				idx[k] = 0
				k++
			}
			if k == n {
				break
			}
		}
	}
}

func init() {
	register("C26", func(x *Ctx) {
		x.Pool(evalC26, func(emit func(*Case) bool) { exploreC26(x, emit) })
	})
}
