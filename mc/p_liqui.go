package main

import (
	"fmt"
	"strings"
)

var lqEnvs = []lqEnv{{"mysql", true, false}, {"postgresql", false, true}, {"oracle", true, true}, {"mariadb", false, false}}

func always(string) bool { return true }

// lqGen decides one generated changelog.
func lqGen(src string, s *Schema, suffix string, comments bool, author string) []Finding {
	sets, err := parseLq(src)
	if err != nil {
		return finding("malformed", "%v\n%s", err, clip(src, 1500))
	}
	for _, env := range lqEnvs {
		d := &DB{T: map[string]*dbTable{}}
		if err := d.exec(sets, env); err != nil {
			return finding("not-applicable", "%v (environment %+v)\n%s", err, env, clip(src, 1500))
		}
		f := diffDB(d, lqDB(s, suffix), nil, dbOpt{suffix: suffix, comments: comments, inlineUq: true, order: always})
		if f == nil {
			for _, t := range d.T {
				for _, c := range t.Cols {
					if !comments && c.Remarks != "" {
						f = finding("comment-without-option", "%s.%s: comment without the comments option", t.Name, c.Name)
					}
				}
				if t.Remarks != "" && t.Remarks != s.Table(t.Name).Desc {
					f = finding("table-comment", "%s: comment %q", t.Name, t.Remarks)
				}
				if env.Dbms == "mysql" && len(s.Table(t.Name).Uniques()) > 0 {
					ok := false
					for _, u := range t.Uniq {
						ok = ok || u.Name == t.Name+suffix
					}
					if !ok {
						f = finding("unique-name", "%s: no unique constraint named %s", t.Name, t.Name+suffix)
					}
				}
			}
		}
		if f != nil {
			f[0].Msg += fmt.Sprintf(" (environment %+v)\n%s", env, clip(src, 1800))
			return f
		}
	}
	for _, st := range sets {
		if st.author != author {
			return finding("author", "change set %s has author %q, want %q", st.id, st.author, author)
		}
	}
	return nil
}

func evalC10(r *Runner, c *Case) []Finding {
	r.PutSchema("in.json", c.S)
	n := Norm(c.S)
	for _, cm := range []bool{false, true} {
		args := []string{"generate", "liquibase", "-i", "in.json", "-o", "o.yaml"}
		suffix := ""
		if cm {
			suffix = "_uq"
			args = append(args, "-c", "-u", suffix)
		}
		out, f := mustRun(r, "o.yaml", args...)
		if f != nil {
			return f
		}
		if f := lqGen(out, n, suffix, cm, n.Author); f != nil {
			return f
		}
		if gs := groupsOf(c.S); c.Heavy && len(gs) > 0 {
			for _, g := range [][]string{gs[:1], gs} {
				out, f := mustRun(r, "o2.yaml", "generate", "liquibase", "-i", "in.json", "-o", "o2.yaml", "-g", strings.Join(g, ","))
				if f != nil {
					return f
				}
				if f := lqGen(out, Filter(n, g), "", false, n.Author); f != nil {
					f[0].Sig = "group-" + f[0].Sig
					return f
				}
			}
		}
	}
	return nil
}

// ---- pairs ------------------------------------------------------------------

// presencePairs enumerates all pairs of assignments of a shape (or absence) to
// a fixed set of table or column names: every way for several tables or columns
// to be added, removed, renamed, swapped or re-keyed at once.
func (x *Ctx) presencePairs(ok func(*Schema) bool, pair func(string, []string, *Schema, *Schema, bool) bool) bool {
	type named struct {
		n string
		s *Schema
	}
	grid := func(slots, shapes int, mk func([]int) *Schema) []named {
		var l []named
		v := make([]int, slots)
		for {
			if s := mk(v); ok(s) {
				l = append(l, named{fmt.Sprint(v), s})
			}
			i := 0
			for i < slots {
				v[i]++
				if v[i] < shapes {
					break
				}
				v[i] = 0
				i++
			}
			if i == slots {
				return l
			}
		}
	}
	all := func(name string, l []named) bool {
		for _, p := range l {
			for _, q := range l {
				x.trans++
				s := q.s.Clone()
				s.Version = "2.0.0"
				if !pair(name, []string{p.n + " => " + q.n}, p.s, s, false) {
					return false
				}
			}
		}
		return true
	}
	id := func() *Col { return &Col{Name: "id", Type: "int64", PK: true, NotNull: true} }
	tables := grid(4, 3, func(v []int) *Schema {
		s := &Schema{Version: "1.0.0"}
		for i, k := range v {
			t := &Table{Name: "tbl_" + string(rune('a'+i)), Columns: []*Col{id()}}
			if k == 0 {
				continue
			}
			if k == 2 {
				t.Columns = append(t.Columns, &Col{Name: "v", Type: "varchar", Size: 9, Unique: true})
			}
			s.Tables = append(s.Tables, t)
		}
		return s
	})
	columns := grid(4, 3, func(v []int) *Schema {
		t := &Table{Name: "tbl", Columns: []*Col{id()}}
		for i, k := range v {
			switch n := "col_" + string(rune('a'+i)); k {
			case 1:
				t.Columns = append(t.Columns, &Col{Name: n, Type: "int32"})
			case 2:
				t.Columns = append(t.Columns, &Col{Name: n, Type: "varchar", Size: 9, NotNull: true})
			}
		}
		return &Schema{Version: "1.0.0", Tables: []*Table{t}}
	})
	keys := grid(3, 5, func(v []int) *Schema {
		t := &Table{Name: "tbl"}
		for i, k := range v {
			if k > 0 {
				t.Columns = append(t.Columns, &Col{Name: "key_" + string(rune('a'+i)), Type: "int64", NotNull: true, PK: k&1 == 0, Unique: k > 2})
			}
		}
		return &Schema{Version: "1.0.0", Tables: []*Table{t}}
	})
	attrs := grid(2, 13, func(v []int) *Schema {
		t := &Table{Name: "tbl", Columns: []*Col{id()}}
		for i, k := range v {
			if k > 0 {
				k--
				t.Columns = append(t.Columns, &Col{Name: "num_" + string(rune('a'+i)), Type: "int32", NotNull: k&1 == 1, AutoInc: k&2 == 2, Default: []string{"", "1", "2"}[k/4]})
			}
		}
		return &Schema{Version: "1.0.0", Tables: []*Table{t}}
	})
	return all("table grid", tables) && all("column grid", columns) && all("key grid", keys) && all("attribute grid", attrs)
}

// pairCases enumerates ordered pairs of schemas: a state against everything
// one edit away (both directions), all pairs of one-edit neighbours of the
// small seeds, two-edit neighbours, and all pairs of seeds.
func (x *Ctx) pairCases(keep func(*Schema) bool, emit func(*Case) bool) {
	ok := func(s *Schema) bool { return keep(s) }
	pair := func(name string, tr []string, a, b *Schema, heavy bool) bool {
		x.states++
		return emit(&Case{Name: name, Trace: tr, S: a, T: b, Heavy: heavy})
	}
	for _, a := range stdSeeds() {
		for _, b := range stdSeeds() {
			if ok(a.S) && ok(b.S) {
				pair(a.Name+" -> "+b.Name, nil, a.S, b.S, true)
			}
		}
	}
	// lists of values which only differ in where one value ends
	lists := [][]string{{"x,y", "z"}, {"x", "y,z"}, {"x", "y", "z"}, {"x,y,z"}, {"z", "x,y"}, {"x', 'y", "z"}, {"x", "y', 'z"}, {"xy", "z"}, {"x", "yz"}, {"X", "y", "z"}, {"x", "y", " z"}, {"x", "y", "z", "w"}, {"x", "y"}, {"z", "y", "x"}}
	for _, typ := range []string{"enum", "set"} {
		for i, p := range lists {
			for j, q := range lists {
				if i == j || typ == "set" && (strings.Contains(strings.Join(p, ""), ",") || strings.Contains(strings.Join(q, ""), ",")) {
					continue
				}
				mk := func(v []string) *Schema {
					return &Schema{Version: "1", Tables: []*Table{{Name: "t", Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "e", Type: typ, Values: v}}}}}
				}
				if !pair("values", []string{fmt.Sprintf("%s %q => %q", typ, p, q)}, mk(p), mk(q), false) {
					return
				}
			}
		}
	}
	for _, sd := range stdSeeds() {
		stop := false
		x.Explore([]Seed{sd}, []*Alphabet{alphaFull()}, ok, func(c *Case) bool {
			x.states-- // counted as pairs
			if !pair(sd.Name+" -> +1", c.Trace, sd.S, c.S, true) || !pair("+1 -> "+sd.Name, c.Trace, c.S, sd.S, true) {
				stop = true
			}
			return !stop
		})
	}
	if !x.presencePairs(ok, pair) {
		return
	}
	neigh := func(sd Seed, a *Alphabet) []*Case {
		var l []*Case
		s0, t0 := x.states, x.trans
		x.Explore([]Seed{sd}, []*Alphabet{a}, ok, func(c *Case) bool { l = append(l, c); return true })
		x.states, x.trans = s0, t0
		return l
	}
	cross := func(name string, l, m []*Case) bool {
		for _, p := range l {
			for _, q := range m {
				x.trans++
				tr := append(append([]string{}, p.Trace...), "=>")
				tr = append(tr, q.Trace...)
				if !pair(name, tr, p.S, q.S, false) {
					return false
				}
			}
		}
		return true
	}
	small := smallSeeds()
	a := alphaPairs()
	a.Refs, a.Indices, a.Classes = nil, false, nil
	d1 := neigh(small[0], a)
	if !cross("min+1 -> min+1", d1, d1) {
		return
	}
	b := alphaCore()
	if x.Thorough {
		b = a
	}
	d1two := neigh(small[1], b)
	if !cross("two+1 -> two+1", d1two, d1two) {
		return
	}
	lv := []*Alphabet{a, a}
	seeds := small[:1]
	if x.Thorough {
		seeds = small
	}
	for _, sd := range seeds {
		stop := false
		x.Explore([]Seed{sd}, lv, ok, func(c *Case) bool {
			x.states--
			if len(c.Trace) < 2 {
				return true
			}
			if !pair(sd.Name+" -> +2", c.Trace, sd.S, c.S, false) || !pair("+2 -> "+sd.Name, c.Trace, c.S, sd.S, false) {
				stop = true
			}
			return !stop
		})
		if stop {
			return
		}
	}
	if x.Thorough {
		d2 := []*Case{}
		s0, t0 := x.states, x.trans
		x.Explore([]Seed{small[0]}, []*Alphabet{alphaCore(), alphaCore()}, ok, func(c *Case) bool { d2 = append(d2, c); return true })
		x.states, x.trans = s0, t0
		cross("min+2 -> min+2", d2, d2)
	}
}

func hasValues(c *Col) bool { t := canonType(c.Type); return t == "enum" || t == "set" }

// uncovered removes what a diff does not cover.
func uncovered(t *Table) *Table {
	t = t.Clone()
	t.Group, t.ClassName, t.Indices = "", "", nil
	for _, c := range t.Columns {
		c.Ref, c.OnUpdate = nil, ""
		if !hasValues(c) {
			c.Values = nil
		}
	}
	return t
}

func tableJSON(t *Table) string { return string((&Schema{Tables: []*Table{t}}).JSON()) }

// touched tells which tables a change concerns.
func (c lqChange) tables() []string {
	if c.kind == "renameTable" {
		return []string{lqStr(c.m, "oldTableName"), lqStr(c.m, "newTableName")}
	}
	return []string{lqStr(c.m, "tableName")}
}

func movedGroup(a, b *Schema) bool {
	for _, t := range a.Tables {
		if u := b.Table(t.Name); u != nil && u.Group != t.Group {
			return true
		}
	}
	return false
}

// sameTable says that nothing a diff covers differs.
func sameTable(a, b *Table, comments bool) bool {
	a, b = uncovered(a), uncovered(b)
	if !comments {
		for _, t := range []*Table{a, b} {
			t.Desc = ""
			for _, c := range t.Columns {
				c.Desc = ""
			}
		}
	}
	a.Columns, b.Columns = byName(a.Columns), byName(b.Columns)
	return tableJSON(a) == tableJSON(b)
}

func byName(cs []*Col) []*Col {
	m := map[string]*Col{}
	var ns []string
	for _, c := range cs {
		m[c.Name] = c
		ns = append(ns, c.Name)
	}
	var r []*Col
	for _, n := range sortStrs(ns) {
		r = append(r, m[n])
	}
	return r
}

func lqDiff(src string, a, b *Schema, suffix string, comments bool, author string) []Finding {
	sets, err := parseLq(src)
	if err != nil {
		return finding("malformed", "%v\n%s", err, clip(src, 1500))
	}
	tail := "\n" + clip(src, 1800)
	created := map[string]bool{}
	for _, st := range sets {
		if st.author != author {
			return finding("author", "change set %s has author %q, want %q", st.id, st.author, author)
		}
		for _, c := range st.changes {
			if c.kind == "createTable" {
				created[lqStr(c.m, "tableName")] = true
			}
			if !comments && (c.kind == "setColumnRemarks" || c.kind == "setTableRemarks") {
				return finding("comment-without-option", "%s without the comments option%s", c.kind, tail)
			}
			for _, tn := range c.tables() {
				if o, n := a.Table(tn), b.Table(tn); o != nil && n != nil && sameTable(o, n, comments) {
					return finding("void-change", "%s on table %q, which did not change%s", c.kind, tn, tail)
				}
				if o, n := a.Table(tn), b.Table(tn); o == nil && n == nil {
					return finding("foreign-table", "%s on unknown table %q%s", c.kind, tn, tail)
				}
			}
		}
	}
	for _, env := range lqEnvs {
		d := lqDB(a, suffix)
		if err := d.exec(sets, env); err != nil {
			return finding("not-applicable", "%v (environment %+v)%s", err, env, tail)
		}
		want := lqDB(b, suffix)
		opt := dbOpt{suffix: suffix, comments: comments, inlineUq: true, autoincOld: want,
			order: func(tn string) bool { return orderDetermined(a.Table(tn), b.Table(tn)) },
		}
		f := diffDB(d, want, nil, opt)
		if f == nil {
			f = autoincCheck(d, a, b)
		}
		if f == nil && !comments {
			f = newRemarks(d, a, b)
		}
		if f != nil {
			f[0].Msg += fmt.Sprintf(" (environment %+v)%s", env, tail)
			return f
		}
	}
	return nil
}

// autoincCheck: auto-increment may stay on only where the old column had it.
func autoincCheck(d *DB, a, b *Schema) []Finding {
	for _, t := range b.Tables {
		o := a.Table(t.Name)
		for _, c := range t.Columns {
			if c.AutoInc || !d.T[t.Name].col(c.Name).AutoInc {
				continue
			}
			if o == nil || o.Col(c.Name) == nil || !o.Col(c.Name).AutoInc {
				return finding("column-autoinc", "%s.%s: auto increment was not asked for", t.Name, c.Name)
			}
		}
	}
	return nil
}

func newRemarks(d *DB, a, b *Schema) []Finding {
	for tn, t := range d.T {
		for _, c := range t.Cols {
			if c.Remarks == "" {
				continue
			}
			found := false
			for _, o := range a.Tables {
				for _, oc := range o.Columns {
					found = found || oc.Desc == c.Remarks
				}
			}
			if !found {
				return finding("comment-without-option", "%s.%s got a comment without the comments option", tn, c.Name)
			}
		}
	}
	return nil
}

// orderDetermined: the changelog can reproduce the column order if the common
// columns keep their order, nothing is added in front, and no column may have
// been renamed.
func orderDetermined(o, n *Table) bool {
	if n == nil {
		return false
	}
	if o == nil {
		return true
	}
	var oc, nc []string
	added, removed := false, false
	for _, c := range o.Columns {
		if n.Col(c.Name) != nil {
			oc = append(oc, c.Name)
		} else {
			removed = true
		}
	}
	for i, c := range n.Columns {
		if o.Col(c.Name) != nil {
			nc = append(nc, c.Name)
		} else {
			added = true
			if i == 0 {
				return false
			}
		}
	}
	return sameList(oc, nc) && !(added && removed)
}

func evalC11(r *Runner, c *Case) []Finding {
	r.PutSchema("a.json", c.S)
	r.PutSchema("b.json", c.T)
	a, b := Norm(c.S), Norm(c.T)
	for _, cm := range []bool{false, true} {
		args := []string{"diff", "liquibase", "-f", "a.json", "-t", "b.json", "-o", "o.yaml"}
		suffix, author := "", b.Author
		if cm {
			suffix, author = "_uq", "kim"
			args = append(args, "-c", "-u", suffix, "-a", "kim")
		}
		out, f := mustRun(r, "o.yaml", args...)
		if f != nil {
			return f
		}
		if f := lqDiff(out, a, b, suffix, cm, author); f != nil {
			return f
		}
		if c.Heavy && !movedGroup(a, b) {
			for _, g := range groupsOf(&Schema{Tables: append(append([]*Table{}, c.S.Tables...), c.T.Tables...)}) {
				out, f := mustRun(r, "o.yaml", append(args, "-g", g)...)
				if f != nil {
					return f
				}
				if f := lqDiff(out, Filter(a, []string{g}), Filter(b, []string{g}), suffix, cm, author); f != nil {
					f[0].Sig = "group-" + f[0].Sig
					return f
				}
			}
		}
	}
	return nil
}

func init() {
	register("C10", func(x *Ctx) {
		x.Note("environments", len(lqEnvs))
		x.Pool(evalC10, func(emit func(*Case) bool) {
			x.Explore(stdSeeds(), []*Alphabet{alphaFull()}, saneSchema, heavyFirst(emit, 1))
			x.Explore(smallSeeds(), x.levels(alphaPairs()), saneSchema, heavyFirst(emit, 1))
		})
	})
	register("C11", func(x *Ctx) {
		x.Note("environments", len(lqEnvs))
		x.Pool(evalC11, func(emit func(*Case) bool) { x.pairCases(saneSchema, emit) })
	})
}
