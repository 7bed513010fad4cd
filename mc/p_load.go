package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
)

// ---- C14: group filter ---------------------------------------------------------

// groupLists are the option values tried for a schema: every subset of its
// groups, plus reordered, repeated and unknown names.
func groupLists(gs []string, all bool) [][]string {
	var out [][]string
	if all && len(gs) <= 4 {
		for m := 1; m < 1<<uint(len(gs)); m++ {
			var l []string
			for i := range gs {
				if m>>uint(i)&1 == 1 {
					l = append(l, gs[i])
				}
			}
			out = append(out, l)
		}
		out = append(out, []string{"unknown"})
		if len(gs) > 0 {
			out = append(out, []string{gs[0], "unknown"}, []string{gs[0], gs[0]})
		}
		if len(gs) > 1 {
			out = append(out, []string{gs[1], gs[0]}, []string{gs[len(gs)-1], "unknown", gs[0]})
		}
		return out
	}
	for _, g := range gs {
		out = append(out, []string{g})
	}
	if len(gs) > 1 {
		out = append(out, []string{gs[len(gs)-1], gs[0]})
	}
	return append(out, []string{"unknown"})
}

func evalC14(r *Runner, c *Case) []Finding {
	b := c.T
	if b == nil {
		b = c.S
	}
	gs := allGroups(c.S, b)
	var ok []string
	for _, g := range gs {
		if !strings.Contains(g, ",") {
			ok = append(ok, g)
		}
	}
	gs = ok
	r.PutSchema("a.json", c.S)
	r.PutSchema("b.json", b)
	for _, l := range groupLists(gs, c.Heavy) {
		r.PutSchema("fa.json", Filter(c.S, l))
		r.PutSchema("fb.json", Filter(b, l))
		for _, cmd := range outCmds {
			if !cmd.G || cmd.Diff != (c.T != nil) {
				continue
			}
			for vi, v := range cmd.variants() {
				if vi > 0 && !c.Heavy {
					continue
				}
				want, res := r.runOut(cmd, v, "fa.json", "fb.json")
				if !res.OK() {
					return finding("filtered-fails:"+cmd.Name, "%s fails on the schema that holds only the tables of %q: exit %d %s", cmd.Name, l, res.Exit, clip(res.Out, 400))
				}
				got, res := r.runOut(cmd, v, "a.json", "b.json", "-g", strings.Join(l, ","))
				if !res.OK() {
					return finding("group-fails:"+cmd.Name, "%s -g %q: exit %d %s", cmd.Name, l, res.Exit, clip(res.Out, 400))
				}
				if cmd.Name == "gorm" {
					if f := gormGroup(r, cmd, v, c.S, l, got["o.go"]); f != nil {
						return f
					}
					continue
				}
				if d := diffTrees(got, want); d != "" {
					return finding("group:"+cmd.Name, "%s is not the output for the schema with only these tables: %s", cmdLine(cmd.args(v, "a.json", "b.json", "-g", strings.Join(l, ","))), d)
				}
			}
		}
	}
	// no option, or an empty one, selects every table
	if c.Heavy {
		for _, cmd := range outCmds {
			if !cmd.G || cmd.Diff != (c.T != nil) {
				continue
			}
			want, _ := r.runOut(cmd, nil, "a.json", "b.json")
			var all []string
			for _, g := range gs {
				all = append(all, g)
			}
			if d := coverAll(c.S, cmd, want); d != "" && c.T == nil {
				return finding("all:"+cmd.Name, "%s without -g: %s", cmd.Name, d)
			}
			got, _ := r.runOut(cmd, nil, "a.json", "b.json", "-g", "")
			if d := diffTrees(got, want); d != "" {
				return finding("empty-g:"+cmd.Name, "%s -g '' differs from no group option: %s", cmd.Name, d)
			}
		}
	}
	return nil
}

// goBlocks splits generated GORM code into its header and the structs by table name.
func goBlocks(src string) (string, map[string]string) {
	m := map[string]string{}
	parts := strings.Split("\n"+src, "\ntype ")
	for _, p := range parts[1:] {
		p = strings.TrimRight(p, "\n")
		n := p
		if i := strings.LastIndex(p, "return \""); i >= 0 {
			n = p[i+8:]
			if j := strings.Index(n, "\""); j >= 0 {
				n = n[:j]
			}
		}
		if _, dup := m[n]; dup {
			n += " (again)"
		}
		m[n] = p
	}
	return parts[0], m
}

// gormGroup: the structs are those of the run without the option, for exactly the
// selected tables; without references to tables left out, the whole output is
// that of the schema of the selected tables.
func gormGroup(r *Runner, cmd oCmd, v []string, s *Schema, l []string, got string) []Finding {
	full, res := r.runOut(cmd, v, "a.json", "b.json")
	if !res.OK() {
		return finding("group-fails:gorm", "gorm: exit %d %s", res.Exit, clip(res.Out, 400))
	}
	_, all := goBlocks(full["o.go"])
	_, sel := goBlocks(got)
	want := map[string]string{}
	in := map[string]bool{}
	for _, t := range Filter(s, l).Tables {
		want[t.Name] = all[t.Name]
		in[t.Name] = true
	}
	if d := diffTrees(sel, want); d != "" {
		return finding("group:gorm", "generate gorm -g %q: structs: %s", l, d)
	}
	closed := s.Clone()
	for _, t := range closed.Tables {
		for _, c := range t.Columns {
			if c.Ref != nil && !in[c.Ref.Table] {
				c.Ref = nil
			}
		}
	}
	r.PutSchema("ca.json", closed)
	r.PutSchema("cfa.json", Filter(closed, l))
	w2, res := r.runOut(cmd, v, "cfa.json", "")
	if !res.OK() {
		return finding("filtered-fails:gorm", "gorm: exit %d %s", res.Exit, clip(res.Out, 400))
	}
	g2, res := r.runOut(cmd, v, "ca.json", "", "-g", strings.Join(l, ","))
	if !res.OK() {
		return finding("group-fails:gorm", "gorm: exit %d %s", res.Exit, clip(res.Out, 400))
	}
	if d := diffTrees(g2, w2); d != "" {
		return finding("group:gorm", "%s (references to other groups removed) is not the output for the schema with only these tables: %s", cmdLine(cmd.args(v, "a.json", "", "-g", strings.Join(l, ","))), d)
	}
	return nil
}

// coverAll is a coarse check that every table name occurs in the output.
func coverAll(s *Schema, cmd oCmd, out map[string]string) string {
	var all strings.Builder
	for _, v := range out {
		all.WriteString(v)
	}
	for _, t := range s.Tables {
		n := t.Name
		if cmd.Name == "pb" { // messages are named by class
			continue
		}
		if !strings.Contains(all.String(), n) {
			return "table " + n + " is missing"
		}
	}
	return ""
}

// grpTwo is the small seed of the deeper exploration: three tables in two groups.
func grpTwo() *Schema {
	return &Schema{Version: "1.0.0", Tables: []*Table{
		{Name: "ta", Group: "alpha", Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "b_id", Type: "int64", Ref: &Ref{"tb", "id", "n:1"}}}},
		{Name: "tb", Group: "beta", Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "nm", Type: "varchar", Size: 9}}},
		{Name: "tc", Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "a_id", Type: "int64", Ref: &Ref{"ta", "id", "1:n"}}}},
	}}
}

func alphaGroups() *Alphabet {
	a := alphaPairs()
	a.Groups = []string{"", "alpha", "beta", "Alpha", "alp", "g x", "alphabet"}
	a.Refs = []Ref{{}, {"ta", "id", "n:1"}, {"tb", "id", "1:1"}, {"tc", "id", "1:n"}, {"=", "*", "n:1"}, {"nowhere", "id", "n:1"}}
	a.TblNames = []string{"aa", "zz"}
	a.Types = []string{"varchar", "datetime", "json", "enum", "decimal", "boolean", "date"}
	a.Defaults, a.Descs, a.TblDescs, a.OnUpdates = []string{"1"}, nil, nil, nil
	a.Sizes = nil
	return a
}

func alphaGroups2() *Alphabet {
	return &Alphabet{Groups: []string{"", "alpha", "beta"}, Refs: []Ref{{}, {"ta", "id", "n:1"}, {"tb", "id", "1:1"}, {"tc", "id", "1:n"}}, Types: []string{"datetime", "json"}, Flags: "pnu", Structure: true, Classes: []string{"MyClass"}}
}

func legal(s *Schema) bool { return Valid(s) == nil && uniqueNames(s) }

var likeGroups = []string{"g", "G", "gg", "g x", "x g", "g-1", "g_1", "g.x", ".", "1", "01", "한", "한글", "*", "^g", "g$", "g|x", "%", "null", "all", "x", "gx", "g:x", "g;x"}

func exploreC14(x *Ctx, emit func(*Case) bool) {
	seeds := []Seed{{"groups", seedGroups()}, {"keys", seedKeys()}, {"grp", grpTwo()}, {"many", seedMany(6, 3)}, {"two", seedTwo()}, {"nocols", seedNoCols()}, {"empty", seedEmpty()}}
	x.Explore(seeds, nil, saneSchema, heavyFirst(emit, 0))
	x.Explore([]Seed{{"grp", grpTwo()}, {"groups", seedGroups()}}, []*Alphabet{alphaGroups()}, saneSchema, heavyFirst(emit, 1))
	x.Explore([]Seed{{"keys", seedKeys()}, {"many", seedMany(6, 3)}}, []*Alphabet{alphaGroups()}, saneSchema, heavyFirst(emit, 0))
	lv := []*Alphabet{alphaGroups2(), alphaGroups2()}
	if x.Thorough {
		lv = []*Alphabet{alphaGroups(), alphaGroups(), alphaGroups2()}
	}
	x.Explore([]Seed{{"grp", grpTwo()}}, lv, saneSchema, heavyFirst(emit, 0))
	// groups whose names are alike or mean something to a pattern matcher
	for _, g := range likeGroups {
		for _, h := range likeGroups {
			if g == h {
				continue
			}
			x.states++
			x.trans++
			s := grpTwo()
			to := map[string]string{}
			for _, t := range s.Tables {
				if _, ok := to[t.Group]; !ok {
					to[t.Group] = []string{g, h, g + h, ""}[len(to)%4]
				}
				t.Group = to[t.Group]
			}
			if !emit(&Case{Name: fmt.Sprintf("groups %q and %q", g, h), S: s}) {
				return
			}
		}
	}
	// diffs: pairs in which no table changes its group
	pair := func(name string, tr []string, a, b *Schema, heavy bool) bool {
		if movedGroup(a, b) {
			return true
		}
		x.states++
		return emit(&Case{Name: name, Trace: tr, S: a, T: b, Heavy: heavy})
	}
	for _, sd := range seeds {
		for _, sd2 := range seeds {
			pair(sd.Name+" -> "+sd2.Name, nil, sd.S, sd2.S, true)
		}
	}
	var d1 []*Case
	s0, t0 := x.states, x.trans
	x.Explore([]Seed{{"grp", grpTwo()}}, []*Alphabet{alphaGroups()}, saneSchema, func(c *Case) bool { d1 = append(d1, c); return true })
	x.states, x.trans = s0, t0
	for _, c := range d1 {
		if !pair("grp -> +1", c.Trace, grpTwo(), c.S, true) || !pair("+1 -> grp", c.Trace, c.S, grpTwo(), true) {
			return
		}
	}
	a := alphaGroups2()
	if x.Thorough {
		a = alphaGroups()
	}
	var d2 []*Case
	s0, t0 = x.states, x.trans
	x.Explore([]Seed{{"grp", grpTwo()}}, []*Alphabet{a}, saneSchema, func(c *Case) bool { d2 = append(d2, c); return true })
	x.states, x.trans = s0, t0
	for _, p := range d2 {
		for _, q := range d2 {
			x.trans++
			if !pair("grp+1 -> grp+1", append(append(append([]string{}, p.Trace...), "=>"), q.Trace...), p.S, q.S, false) {
				return
			}
		}
	}
}

// ---- C01: equivalent spellings ----------------------------------------------------

type spelling struct {
	name string
	data []byte
	s    *Schema
}

func mapTypes(s *Schema, f func(i int, t string) string) *Schema {
	n := s.Clone()
	i := 0
	for _, t := range n.Tables {
		for _, c := range t.Columns {
			c.Type = f(i, c.Type)
			i++
		}
	}
	return n
}

var aliasOf = func() map[string][]string {
	m := map[string][]string{}
	for _, a := range aliasNames() {
		m[typeAlias[a]] = append(m[typeAlias[a]], a)
	}
	return m
}()

func spellings(s *Schema, heavy bool) []spelling {
	var out []spelling
	add := func(n string, v *Schema) { out = append(out, spelling{n, v.JSON(), v}) }
	rev := s.Clone()
	for i, j := 0, len(rev.Tables)-1; i < j; i, j = i+1, j-1 {
		rev.Tables[i], rev.Tables[j] = rev.Tables[j], rev.Tables[i]
	}
	add("tables reversed", rev)
	canon := mapTypes(s, func(_ int, t string) string { return canonType(t) })
	add("canonical types", canon)
	add("upper case types", mapTypes(s, func(_ int, t string) string { return strings.ToUpper(t) }))
	for k := 0; k < 3; k++ {
		k := k
		v := mapTypes(rev, func(i int, t string) string {
			if l := aliasOf[canonType(t)]; len(l) > 0 {
				a := l[(k)%len(l)]
				if k > 0 {
					a = strings.ToUpper(a[:1]) + a[1:]
				}
				return a
			}
			return t
		})
		add(fmt.Sprintf("alias %d, tables reversed", k), v)
	}
	// the same document laid out differently: sorted keys, indented, every member written
	var g interface{}
	json.Unmarshal(s.JSON(), &g)
	if m, ok := g.(map[string]interface{}); ok {
		if ts, ok := m["tables"].([]interface{}); ok {
			for _, t := range ts {
				if cs, ok := t.(map[string]interface{})["columns"].([]interface{}); ok {
					for _, c := range cs {
						c := c.(map[string]interface{})
						for k, d := range map[string]interface{}{"desc": "", "size": 0, "scale": 0, "notnull": false, "pk": false, "unique": false, "autoinc": false, "default": "", "onupdate": "", "values": nil, "ref": nil} {
							if _, ok := c[k]; !ok {
								c[k] = d
							}
						}
					}
				}
			}
		}
	}
	b, _ := json.MarshalIndent(g, " ", "\t")
	out = append(out, spelling{"every member written out", b, s})
	if heavy && len(s.Tables) <= 4 {
		n := len(s.Tables)
		var perm func(p []int)
		perm = func(p []int) {
			if len(p) == n {
				v := s.Clone()
				for i, k := range p {
					v.Tables[i] = s.Tables[k]
				}
				add(fmt.Sprintf("tables %v", p), v)
				return
			}
			for k := 0; k < n; k++ {
				dup := false
				for _, q := range p {
					dup = dup || q == k
				}
				if !dup {
					perm(append(append([]int{}, p...), k))
				}
			}
		}
		if n > 1 {
			perm(nil)
		}
	} else if heavy {
		v := s.Clone()
		v.Tables = append(v.Tables[len(v.Tables)/2:], v.Tables[:len(v.Tables)/2]...)
		add("tables rotated", v)
	}
	return out
}

func evalC01(r *Runner, c *Case) []Finding {
	r.PutSchema("s.json", c.S)
	n := Norm(c.S)
	// absolute: the loaded schema is the documented meaning of the file
	if saneSchema(c.S) {
		sql, f := mustRun(r, "o.sql", "export", "mysql", "-i", "s.json", "-o", "o.sql")
		if f != nil {
			return f
		}
		if f := diffDDL(sql, n, ""); f != nil {
			f[0].Sig = "mysql-" + f[0].Sig
			return f
		}
	}
	if xlsxAble(c.S) {
		if _, f := mustRun(r, "b.xlsx", "export", "xlsx", "-i", "s.json", "-o", "b.xlsx"); f != nil {
			return f
		}
		out, f := mustRun(r, "o.json", "import", "xlsx", "-i", "b.xlsx", "-o", "o.json")
		if f != nil {
			return f
		}
		got, err := parseSchema([]byte(out))
		if err != nil {
			return finding("output-json", "%v", err)
		}
		if f := diffSchemas(got, xlsxWant(c.S), ""); f != nil {
			f[0].Sig = "xlsx-" + f[0].Sig
			return f
		}
	}
	sps := spellings(c.S, c.Heavy)
	for ci, cmd := range outCmds {
		if !c.Heavy && cmd.Name != "mysql" && cmd.Name != "md" && cmd.Name != "kt" && cmd.Name != "xlsx" && (ci+len(c.S.JSON()))%3 != 0 {
			continue
		}
		want, res := r.runOut(cmd, nil, "s.json", "s.json")
		if !res.OK() {
			return finding("command-failed:"+cmd.Name, "%s: exit %d %s", cmd.Name, res.Exit, clip(res.Out, 400))
		}
		for _, sp := range sps {
			r.Put("v.json", sp.data)
			ins := [][2]string{{"v.json", ""}}
			if cmd.Diff {
				ins = [][2]string{{"s.json", "v.json"}, {"v.json", "s.json"}}
			}
			for _, in := range ins {
				got, res := r.runOut(cmd, nil, in[0], in[1])
				if !res.OK() {
					return finding("command-failed:"+cmd.Name, "%s on the spelling %q: exit %d %s", cmd.Name, sp.name, res.Exit, clip(res.Out, 400))
				}
				if d := diffTrees(got, want); d != "" {
					return finding("spelling:"+cmd.Name, "%s on the spelling %q (%v): %s", cmd.Name, sp.name, in, d)
				}
			}
		}
		if cmd.Name == "md" {
			if f := checkMD(want["o.md"], n, n, false); f != nil {
				f[0].Sig = "self-diff-" + f[0].Sig
				return f
			}
		}
	}
	return nil
}

// typeSizeSeeds have every type that has other names in many sizes, with and
// without the other attributes.
func typeSizeSeeds() []Seed {
	var out []Seed
	var ts []string
	for t := range aliasOf {
		ts = append(ts, t)
	}
	for v := 0; v < 2; v++ {
		s := &Schema{Version: "1"}
		for _, ty := range sortStrs(ts) {
			t := &Table{Name: "t_" + ty, Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}}}
			for _, sz := range [][2]int{{0, 0}, {1, 0}, {2, 0}, {3, 0}, {4, 0}, {5, 0}, {8, 0}, {9, 0}, {10, 0}, {11, 0}, {19, 0}, {20, 0}, {38, 0}, {64, 0}, {255, 0}, {256, 0}, {65535, 0}, {10, 2}, {5, 5}} {
				c := &Col{Name: fmt.Sprintf("c_%d_%d", sz[0], sz[1]), Type: ty, Size: sz[0], Scale: sz[1]}
				if sz[1] > 0 && !isDec(ty) {
					continue
				}
				if v == 1 {
					c.NotNull, c.Unique, c.Desc = true, sz[0]%2 == 0, "d"
					if isInt(ty) || isDec(ty) {
						c.Default = "1"
					}
				}
				t.Columns = append(t.Columns, c)
			}
			s.Tables = append(s.Tables, t)
		}
		out = append(out, Seed{fmt.Sprintf("typesize%d", v), s})
	}
	return out
}

func exploreC01(x *Ctx, emit func(*Case) bool) {
	x.Explore(append(stdSeeds(), typeSizeSeeds()...), nil, saneSchema, heavyFirst(emit, 0))
	small := append(smallSeeds(), Seed{"keys", seedKeys()}, Seed{"groups", seedGroups()})
	max := 0
	if x.Thorough {
		max = 1
	}
	x.Explore(small, []*Alphabet{alphaFull()}, saneSchema, heavyFirst(emit, max))
	if x.Thorough {
		x.Explore(stdSeeds(), []*Alphabet{alphaFull()}, saneSchema, heavyFirst(emit, 0))
		x.Explore(smallSeeds(), []*Alphabet{alphaPairs(), alphaPairs()}, saneSchema, heavyFirst(emit, 0))
		return
	}
	b := alphaCore()
	b.Types = []string{"text", "REAL", "numeric", "int32", "enum"}
	x.Explore(smallSeeds()[:1], []*Alphabet{b, b}, saneSchema, heavyFirst(emit, 0))
}

// ---- C02: invalid schemas ------------------------------------------------------

type defect struct {
	name  string
	apply func(c *Col)
}

func seq(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("v%d", i))
	}
	return l
}

func defects() []defect {
	d := []defect{
		{"empty name", func(c *Col) { c.Name = "" }},
		{"enum without values", func(c *Col) { c.Type, c.Values = "enum", nil }},
		{"ENUM without values", func(c *Col) { c.Type, c.Values = "ENUM", nil }},
		{"set without values", func(c *Col) { c.Type, c.Values = "set", nil }},
		{"set of 65", func(c *Col) { c.Type, c.Values = "Set", seq(65) }},
		{"set of 200", func(c *Col) { c.Type, c.Values = "set", seq(200) }},
	}
	for _, t := range []string{"", "foo", "varchar2", " int32", "int32 ", "int 32", "int128", "number", "clob", "uuid", "varchar(10)", "text64", "int", "blob"} {
		if typeSet[canonType(t)] {
			continue
		}
		t := t
		d = append(d, defect{fmt.Sprintf("type %q", t), func(c *Col) { c.Type = t }})
	}
	return d
}

type c02case struct {
	data   []byte
	file   string // input file name
	valid  bool
	cmds   []int
	second bool
	why    string
}

func evalC02(r *Runner, c *Case) []Finding {
	k := c.X.(*c02case)
	r.Put(k.file, k.data)
	good := seedMin()
	r.PutSchema("good.json", good)
	for _, ci := range k.cmds {
		cmd := outCmds[ci]
		var runs [][2]string
		if cmd.Diff {
			runs = [][2]string{{k.file, "good.json"}, {"good.json", k.file}}
		} else {
			runs = [][2]string{{k.file, ""}}
		}
		for _, in := range runs {
			out, res := r.runOut(cmd, nil, in[0], in[1])
			line := cmdLine(cmd.args(nil, in[0], in[1]))
			if k.valid {
				if !res.OK() {
					return finding("valid-rejected:"+cmd.Name, "%s rejects a valid schema (%s): exit %d %s", line, k.why, res.Exit, clip(res.Out, 400))
				}
				continue
			}
			if res.OK() {
				return finding("invalid-accepted:"+cmd.Name, "%s exits 0 on an invalid schema (%s)", line, k.why)
			}
			if res.Crashed() {
				return finding("crash:"+cmd.Name, "%s crashes on an invalid schema (%s): %s", line, k.why, clip(res.Out, 600))
			}
			if strings.TrimSpace(res.Out) == "" {
				return finding("silent:"+cmd.Name, "%s reports nothing for an invalid schema (%s)", line, k.why)
			}
			if len(out) > 0 {
				return finding("output:"+cmd.Name, "%s wrote output for an invalid schema (%s): %v", line, k.why, treeFiles(out))
			}
		}
	}
	return nil
}

func exploreC02(x *Ctx, emit func(*Case) bool) {
	all := make([]int, len(outCmds))
	for i := range all {
		all[i] = i
	}
	rot := 0
	next := func(n int) []int {
		var l []int
		for i := 0; i < n; i++ {
			l = append(l, (rot+i)%len(outCmds))
		}
		rot += n
		return l
	}
	put := func(name string, tr []string, s *Schema, data []byte, file string, valid bool, cmds []int, why string) bool {
		x.states++
		if data == nil {
			data = s.JSON()
		}
		return emit(&Case{Name: name, Trace: tr, S: s, X: &c02case{data: data, file: file, valid: valid, cmds: cmds, why: why}})
	}
	ds := defects()
	// every defect at every column of every seed
	for _, sd := range stdSeeds() {
		for ti, t := range sd.S.Tables {
			for ci := range t.Columns {
				for _, d := range ds {
					s := sd.S.Clone()
					d.apply(s.Tables[ti].Columns[ci])
					x.trans++
					cmds := all
					if !x.Thorough && sd.Name != "min" && sd.Name != "two" {
						cmds = next(1)
					}
					if !put(sd.Name, []string{fmt.Sprintf("%s[%d] %s", t.Name, ci, d.name)}, s, nil, "in.json", false, cmds, d.name) {
						return
					}
				}
			}
		}
	}
	// the same after any other edit
	max := 1
	if x.Thorough {
		max = 3
	}
	x.Explore(smallSeeds(), []*Alphabet{alphaPairs()}, saneSchema, func(c *Case) bool {
		x.states--
		for ti, t := range c.S.Tables {
			for ci := range t.Columns {
				for _, d := range ds[:len(ds)-8] {
					s := c.S.Clone()
					d.apply(s.Tables[ti].Columns[ci])
					x.trans++
					if !put(c.Name, append(append([]string{}, c.Trace...), fmt.Sprintf("%s[%d] %s", t.Name, ci, d.name)), s, nil, "in.json", false, next(max), d.name) {
						return false
					}
				}
			}
		}
		return true
	})
	// limits that are still valid
	lim := func(why string, f func(c *Col)) {
		s := seedMin()
		f(s.Tables[0].Columns[1])
		put("min", []string{why}, s, nil, "in.json", true, all, why)
	}
	lim("set of 64", func(c *Col) { c.Type, c.Values = "set", seq(64) })
	lim("set of 1", func(c *Col) { c.Type, c.Values = "set", seq(1) })
	lim("enum of 1", func(c *Col) { c.Type, c.Values = "enum", seq(1) })
	lim("enum of 65", func(c *Col) { c.Type, c.Values = "enum", seq(65) })
	lim("autoinc varchar", func(c *Col) { c.AutoInc = true })
	lim("values of a varchar", func(c *Col) { c.Values = seq(70) })
	for _, sd := range stdSeeds() {
		put(sd.Name, []string{"unchanged"}, sd.S, nil, "in.json", true, all, "seed")
		put(sd.Name, []string{".ojson"}, sd.S, nil, "in.ojson", true, nil, "seed")
	}
	for _, f := range []string{"in.JSON", "In.Json", "in.v2.json", "in.tar.JSON", ".json", "in json.json", "IN.OJSON"} {
		put("min", []string{"file name " + f}, seedMin(), nil, f, true, all, "file name "+f)
	}
	// file names
	for _, f := range []string{"in.txt", "in", "in.jso", "in.json5", "in.yaml", "in.sql", "in.xml", "in.json.bak", "in.json~", "in.json.", "in.JSON.txt", "json.", "injson", "json", "in.xlsx", "in.mdj", "in.dbml", "in.jsonl"} {
		put("min", []string{"file name " + f}, seedMin(), nil, f, false, all, "file name "+f)
	}
	// every truncation and every single-byte corruption of a document that is no longer JSON
	for _, sd := range smallSeeds() {
		doc := sd.S.JSON()
		for i := 0; i < len(doc); i++ {
			if !json.Valid(doc[:i]) {
				x.trans++
				if !put(sd.Name, []string{fmt.Sprintf("truncated at %d", i)}, nil, append([]byte{}, doc[:i]...), "in.json", false, next(1), "truncated") {
					return
				}
			}
		}
		if sd.Name != "min" && !x.Thorough {
			continue
		}
		for i := 0; i < len(doc); i++ {
			for _, ch := range []byte("{}[]\",:x\x00\n") {
				b := append([]byte{}, doc...)
				b[i] = ch
				x.trans++
				if !json.Valid(b) && !put(sd.Name, []string{fmt.Sprintf("byte %d = %q", i, ch)}, nil, b, "in.json", false, next(1), "corrupted") {
					return
				}
			}
		}
	}
	for _, tail := range []string{"}", "x", "{}", ","} {
		put("min", []string{"trailing " + tail}, nil, append(bytes.TrimSpace(seedMin().JSON()), tail...), "in.json", false, all, "trailing "+tail)
	}
	for _, doc := range []string{"", "[]", "\"x\"", "not json"} {
		put("doc", []string{doc}, nil, []byte(doc+" "), "in.json", false, all, "document "+doc)
	}
}

func init() {
	register("C14", func(x *Ctx) { x.Pool(evalC14, func(emit func(*Case) bool) { exploreC14(x, emit) }) })
	register("C01", func(x *Ctx) { x.Pool(evalC01, func(emit func(*Case) bool) { exploreC01(x, emit) }) })
	register("C02", func(x *Ctx) { x.Pool(evalC02, func(emit func(*Case) bool) { exploreC02(x, emit) }) })
}
