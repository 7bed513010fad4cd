package main

import (
	"fmt"
	"strings"
)

// ---- C04: DDL text rendered from an abstract schema in every spelling ------

type ddlStyle struct {
	Quote, Upper, PKInline, NullExplicit, KeyWord, Noise, IfNot, OptOrder bool
	Uniq                                                                  int // 0 table level UNIQUE KEY, 1 inline UNIQUE, 2 CONSTRAINT .. UNIQUE, 3 UNIQUE INDEX
}

func (st ddlStyle) String() string { return fmt.Sprintf("%+v", struct{ S ddlStyleX }{ddlStyleX(st)}) }

type ddlStyleX ddlStyle

var mysqlSpell = map[string]string{}

func allStyles() []ddlStyle {
	var r []ddlStyle
	for b := 0; b < 256; b++ {
		for u := 0; u < 4; u++ {
			r = append(r, ddlStyle{b&1 != 0, b&2 != 0, b&4 != 0, b&8 != 0, b&16 != 0, b&32 != 0, b&64 != 0, b&128 != 0, u})
		}
	}
	return r
}

// fewStyles is a small set in which every pair of option values occurs.
func fewStyles() []ddlStyle {
	all := allStyles()
	type pair struct{ i, vi, j, vj int }
	vals := func(s ddlStyle) []int {
		b := func(x bool) int {
			if x {
				return 1
			}
			return 0
		}
		return []int{b(s.Quote), b(s.Upper), b(s.PKInline), b(s.NullExplicit), b(s.KeyWord), b(s.Noise), b(s.IfNot), b(s.OptOrder), s.Uniq}
	}
	pairs := func(s ddlStyle) []pair {
		v := vals(s)
		var r []pair
		for i := range v {
			for j := i + 1; j < len(v); j++ {
				r = append(r, pair{i, v[i], j, v[j]})
			}
		}
		return r
	}
	need := map[pair]bool{}
	for _, s := range all {
		for _, p := range pairs(s) {
			need[p] = true
		}
	}
	var out []ddlStyle
	for len(need) > 0 {
		best, bs := -1, ddlStyle{}
		for _, s := range all {
			n := 0
			for _, p := range pairs(s) {
				if need[p] {
					n++
				}
			}
			if n > best {
				best, bs = n, s
			}
		}
		for _, p := range pairs(bs) {
			delete(need, p)
		}
		out = append(out, bs)
	}
	return out
}

func sqlStr(s string) string {
	return "'" + strings.NewReplacer("\\", "\\\\", "'", "''").Replace(s) + "'"
}

func (st ddlStyle) kw(s string) string {
	if st.Upper {
		return strings.ToUpper(s)
	}
	return strings.ToLower(s)
}
func (st ddlStyle) id(s string) string {
	if st.Quote {
		return "`" + s + "`"
	}
	return s
}

func renderDDL(s *Schema, st ddlStyle) string {
	var b strings.Builder
	if st.Noise {
		b.WriteString("-- dump\n/*!40101 SET NAMES utf8 */;\nSET FOREIGN_KEY_CHECKS=0;\n")
	}
	for _, t := range s.Tables {
		if st.Noise {
			fmt.Fprintf(&b, "DROP TABLE IF EXISTS %s;\n", st.id(t.Name))
		}
		b.WriteString(st.kw("create table "))
		if st.IfNot {
			b.WriteString(st.kw("if not exists "))
		}
		b.WriteString(st.id(t.Name) + " (\n")
		var defs []string
		pks := t.PKs()
		uqs := t.Uniques()
		pkInline := st.PKInline && len(pks) == 1
		for _, c := range t.Columns {
			ty := mysqlTypeOf[c.Type]
			if a := numArgs(c); a != "" {
				ty += "(" + a + ")"
			} else if c.Type == "boolean" {
				ty = "bit(1)"
				if st.KeyWord {
					ty = "tinyint(1)"
				}
			} else if c.Type == "enum" || c.Type == "set" {
				var q []string
				for _, v := range c.Values {
					q = append(q, sqlStr(v))
				}
				ty += "(" + strings.Join(q, ",") + ")"
				if st.Upper {
					ty = strings.ToUpper(mysqlTypeOf[c.Type]) + "(" + strings.Join(q, ", ") + ")"
				}
			}
			if c.Type != "enum" && c.Type != "set" {
				ty = st.kw(ty)
			}
			var opts []string
			if c.NotNull {
				opts = append(opts, st.kw("not null"))
			} else if st.NullExplicit && !c.PK && !c.AutoInc && c.Type != "datetime" {
				opts = append(opts, st.kw("null"))
			}
			if c.Default != "" {
				v := wantVal(c, c.Default)
				x := v.Text
				switch {
				case v.Kind == "str":
					x = sqlStr(v.Text)
				case v.Kind == "fn" && (!bareFns[strings.ToUpper(v.Text)] || st.KeyWord):
					x += "()"
				case v.Kind == "num" && st.Noise && !strings.HasPrefix(x, "-"):
					x = "'" + x + "'" // mysqldump quotes numbers
				}
				opts = append(opts, st.kw("default ")+x)
			} else if st.NullExplicit && !c.NotNull && !c.PK && !c.AutoInc {
				opts = append(opts, st.kw("default null"))
			}
			if c.AutoInc {
				opts = append(opts, st.kw("auto_increment"))
			}
			if pkInline && c.PK {
				opts = append(opts, st.kw("primary key"))
			}
			if st.Uniq == 1 && c.Unique {
				if st.KeyWord {
					opts = append(opts, st.kw("unique key"))
				} else {
					opts = append(opts, st.kw("unique"))
				}
			}
			if c.OnUpdate != "" {
				f, _ := fnDefault(c.OnUpdate)
				opts = append(opts, st.kw("on update ")+f+"()")
			}
			if c.Desc != "" {
				opts = append(opts, st.kw("comment ")+sqlStr(c.Desc))
			}
			if st.OptOrder {
				for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
					opts[i], opts[j] = opts[j], opts[i]
				}
			}
			d := st.id(c.Name) + " " + ty
			if len(opts) > 0 {
				d += " " + strings.Join(opts, " ")
			}
			defs = append(defs, d)
		}
		list := func(ns []string) string {
			var q []string
			for _, n := range ns {
				q = append(q, st.id(n))
			}
			return "(" + strings.Join(q, ", ") + ")"
		}
		if len(pks) > 0 && !pkInline {
			defs = append(defs, st.kw("primary key ")+list(names(pks)))
		}
		if len(uqs) > 0 && st.Uniq != 1 {
			word := "unique key "
			if st.Uniq == 3 {
				word = "unique index "
			}
			if st.Uniq == 2 {
				defs = append(defs, st.kw("constraint ")+st.id("uc_"+t.Name)+st.kw(" unique ")+list(names(uqs)))
			} else {
				defs = append(defs, st.kw(word)+st.id("uk_"+t.Name)+" "+list(names(uqs)))
			}
		}
		for _, ix := range t.Indices {
			w := "index "
			if st.KeyWord {
				w = "key "
			}
			defs = append(defs, st.kw(w)+st.id(ix.Name)+" "+list(ix.Columns))
		}
		if st.Noise {
			for _, c := range t.Columns {
				if c.Ref != nil && c.Ref.Table != "nowhere" {
					defs = append(defs, fmt.Sprintf("CONSTRAINT fk_%s_%s FOREIGN KEY (%s) REFERENCES %s (%s)", t.Name, c.Name, st.id(c.Name), st.id(c.Ref.Table), st.id(c.Ref.Column)))
				}
			}
		}
		b.WriteString("  " + strings.Join(defs, ",\n  ") + "\n)")
		if st.Noise {
			b.WriteString(" ENGINE=InnoDB AUTO_INCREMENT=5 DEFAULT CHARSET=utf8mb4")
		}
		b.WriteString(";\n")
		if st.Noise && len(t.Columns) > 0 {
			fmt.Fprintf(&b, "INSERT INTO %s VALUES (1);\n", st.id(t.Name))
		}
	}
	return b.String()
}

// importable limits schemas to what a MySQL script can carry unambiguously.
func importable(s *Schema) bool {
	if !saneSchema(s) {
		return false
	}
	for _, t := range s.Tables {
		if len(t.Columns) == 0 {
			return false
		}
		for _, c := range t.Columns {
			ct := canonType(c.Type)
			switch ct {
			case "point", "geometry":
				return false
			case "varchar", "varbinary":
				if c.Size == 0 {
					return false
				}
			case "bit":
				if c.Size <= 1 || c.Size > 64 {
					return false
				}
			case "int8":
				if c.Size == 1 {
					return false
				}
			case "char", "binary":
				if c.Size < 2 || c.Size > 255 {
					return false
				}
			case "decimal":
				if c.Size == 0 || c.Size > 65 || c.Scale > 30 {
					return false
				}
			case "float", "double":
				if c.Size > 0 && c.Scale == 0 || c.Size > 255 {
					return false
				}
			}
			if !sizedType(ct) && c.Size != 0 {
				return false
			}
			if isInt(ct) && c.Size > 255 {
				return false
			}
			if c.OnUpdate != "" && !strings.HasPrefix(c.OnUpdate, "fn::") {
				return false
			}
			if f, fn := fnDefault(c.Default); fn && (ct != "datetime" || f != "NOW" && f != "CURRENT_TIMESTAMP") {
				return false
			}
			if f, fn := fnDefault(c.OnUpdate); fn && f != "NOW" && f != "CURRENT_TIMESTAMP" {
				return false
			}
			if (ct == "boolean" || ct == "bit") && (c.Default == "true" || c.Default == "false") {
				return false
			}
			if c.Type == "double" || c.Type == "float" || c.Type == "decimal" {
				if c.Default != "" && strings.Trim(c.Default, "-0123456789.") != "" {
					return false
				}
			}
			for _, v := range c.Values {
				if v == "" || strings.Contains(v, ",") && ct == "set" {
					return false
				}
			}
		}
		for _, ix := range t.Indices {
			for _, n := range ix.Columns {
				if t.Col(n) == nil {
					return false
				}
			}
		}
	}
	return true
}

// imported is the schema a script rendered from s must give.
func imported(s *Schema, author, version string, got *Schema) *Schema {
	w := Norm(s)
	w.Author, w.Version, w.Name = author, version, ""
	for _, t := range w.Tables {
		t.Group, t.ClassName, t.Desc = "", "", ""
	}
	w = Norm(w)
	for _, t := range w.Tables {
		gt := got.Table(t.Name)
		for _, c := range t.Columns {
			c.Ref = nil
			if gt == nil || gt.Col(c.Name) == nil {
				continue
			}
			g := gt.Col(c.Name)
			if !c.NotNull && (c.PK || c.AutoInc) {
				c.NotNull = g.NotNull // implied by the key, either reading is right
			}
			if sameDefault(c, g.Default, c.Default) {
				c.Default = g.Default
			}
			if f1, k1 := fnDefault(c.OnUpdate); k1 {
				if f2, k2 := fnDefault(g.OnUpdate); k2 && canonFn(f1) == canonFn(f2) {
					c.OnUpdate = g.OnUpdate
				}
			}
			if canonType(c.Type) != "enum" && canonType(c.Type) != "set" {
				c.Values = nil
			}
		}
	}
	return w
}

func sameDefault(c *Col, a, b string) bool {
	if a == b {
		return true
	}
	fa, ka := fnDefault(a)
	fb, kb := fnDefault(b)
	if ka && kb {
		return canonFn(fa) == canonFn(fb)
	}
	if !ka && !kb && isNumeric(c.Type) && isNumber(a) && isNumber(b) {
		return sameVal(&DVal{"num", a}, &DVal{"num", b})
	}
	return false
}

func importSQL(r *Runner, sql string, extra ...string) (*Schema, []Finding) {
	r.Put("in.sql", []byte(sql))
	out, f := mustRun(r, "o.json", append([]string{"import", "mysql", "-i", "in.sql", "-o", "o.json"}, extra...)...)
	if f != nil {
		f[0].Msg += "\n" + clip(sql, 1500)
		return nil, f
	}
	s, err := parseSchema([]byte(out))
	if err != nil {
		return nil, finding("output-json", "%v", err)
	}
	return s, nil
}

func evalC04(r *Runner, c *Case) []Finding {
	s := Norm(c.S)
	for i, st := range c.X.([]ddlStyle) {
		sql := renderDDL(s, st)
		var extra []string
		author, version := "", ""
		if i%2 == 1 {
			extra = []string{"-a", "kim", "-v", "3.4"}
			author, version = "kim", "3.4"
		}
		want := s
		if i%4 >= 2 && len(s.Tables) > 0 {
			x := s.Tables[0].Name
			if i%8 >= 6 && len(s.Tables) > 1 {
				x += ",nosuch," + s.Tables[len(s.Tables)-1].Name
			}
			extra = append(extra, "-x", x)
			want = s.Clone()
			want.Tables = nil
			for _, t := range s.Tables {
				if !contains(strings.Split(x, ","), t.Name) {
					want.Tables = append(want.Tables, t)
				}
			}
		}
		got, f := importSQL(r, sql, extra...)
		if f == nil {
			w := imported(want, author, version, got)
			if st.PKInline {
				for _, t := range w.Tables {
					if p := t.PKs(); len(p) == 1 {
						p[0].NotNull = true
					}
				}
			}
			if f = diffSchemas(got, w, ""); f != nil {
				f[0].Msg += fmt.Sprintf("\nstyle %+v\n%s", ddlStyleX(st), clip(sql, 1500))
			}
		}
		if f != nil {
			return f
		}
	}
	return nil
}

// likeTables are tables of one script whose names are alike.
var likeTables = []string{"User", "user", "USER", "users", "us", "user_", "user role", "x.user"}

// evalExcludes excludes a set of tables.
func evalExcludes(r *Runner, c *Case) []Finding {
	var b strings.Builder
	var ex, want []string
	for i, t := range likeTables {
		fmt.Fprintf(&b, "CREATE TABLE `%s` (a int);\n", t)
		if c.X.(int)>>i&1 == 1 {
			ex = append(ex, t)
		} else {
			want = append(want, t)
		}
	}
	var extra []string
	if len(ex) > 0 {
		extra = []string{"-x", strings.Join(ex, ",")}
	}
	got, f := importSQL(r, b.String(), extra...)
	if f != nil {
		return f
	}
	var have []string
	for _, t := range got.Tables {
		have = append(have, t.Name)
	}
	if !sameSet(have, want) || len(have) != len(want) {
		return finding("excluded-tables", "excluding %q imports %q, want %q", ex, have, want)
	}
	return nil
}

// canonFn names a SQL function; NOW and CURRENT_TIMESTAMP are synonyms.
func canonFn(f string) string {
	f = strings.ToUpper(strings.TrimSuffix(f, "()"))
	if f == "NOW" {
		return "CURRENT_TIMESTAMP"
	}
	return f
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

type typeSpelling struct {
	ddl, typ    string
	size, scale int
}

var typeSpellings = []typeSpelling{
	{"INTEGER", "int32", 0, 0}, {"int(11)", "int32", 11, 0}, {"int unsigned", "int32", 0, 0}, {"INT(10) UNSIGNED ZEROFILL", "int32", 10, 0},
	{"bigint(20) unsigned", "int64", 20, 0}, {"smallint(6)", "int16", 6, 0}, {"mediumint(9)", "int24", 9, 0}, {"tinyint(4)", "int8", 4, 0}, {"tinyint", "int8", 0, 0},
	{"tinyint(1)", "boolean", 0, 0}, {"bit(1)", "boolean", 0, 0}, {"bit(8)", "bit", 8, 0},
	{"decimal(10,2)", "decimal", 10, 2}, {"dec(9,1)", "decimal", 9, 1}, {"numeric(8,3)", "decimal", 8, 3}, {"numeric(8)", "decimal", 8, 0},
	{"float", "float", 0, 0}, {"float(7,4)", "float", 7, 4}, {"double", "double", 0, 0}, {"double precision", "double", 0, 0}, {"real", "double", 0, 0}, {"double(20,5)", "double", 20, 5},
	{"timestamp", "datetime", 0, 0}, {"datetime", "datetime", 0, 0}, {"datetime(6)", "datetime", 0, 0}, {"timestamp(3)", "datetime", 0, 0}, {"date", "date", 0, 0}, {"time", "time", 0, 0}, {"time(3)", "time", 0, 0}, {"year", "year", 0, 0},
	{"char(6)", "char", 6, 0}, {"character(5)", "char", 5, 0}, {"varchar(40)", "varchar", 40, 0}, {"varchar(65535)", "varchar", 65535, 0}, {"character varying(12)", "varchar", 12, 0},
	{"varchar(20) character set utf8mb4 collate utf8mb4_bin", "varchar", 20, 0}, {"varchar(20) charset utf8", "varchar", 20, 0}, {"char(3) character set latin1", "char", 3, 0},
	{"binary(16)", "binary", 16, 0}, {"varbinary(64)", "varbinary", 64, 0},
	{"tinytext", "text8", 0, 0}, {"text", "text16", 0, 0}, {"mediumtext", "text24", 0, 0}, {"longtext", "text32", 0, 0}, {"text character set utf8", "text16", 0, 0}, {"longtext collate utf8mb4_bin", "text32", 0, 0},
	{"tinyblob", "blob8", 0, 0}, {"blob", "blob16", 0, 0}, {"mediumblob", "blob24", 0, 0}, {"longblob", "blob32", 0, 0}, {"json", "json", 0, 0},
}

func evalSpellings(r *Runner, c *Case) []Finding {
	sp := c.X.(typeSpelling)
	for _, up := range []bool{false, true} {
		for _, tail := range []string{"", " NOT NULL", " NULL", " COMMENT 'c'"} {
			d := sp.ddl
			if up {
				d = strings.ToUpper(d)
			}
			got, f := importSQL(r, "CREATE TABLE `t` (\n `a` "+d+tail+",\n b int\n);")
			if f != nil {
				return f
			}
			if len(got.Tables) != 1 || len(got.Tables[0].Columns) != 2 {
				return finding("columns", "columns lost for %s", d)
			}
			g := got.Tables[0].Columns[0]
			if g.Type != sp.typ || g.Size != sp.size || g.Scale != sp.scale {
				return finding("type-spelling:"+sp.typ, "%s imported as %s(%d,%d), want %s(%d,%d)", d, g.Type, g.Size, g.Scale, sp.typ, sp.size, sp.scale)
			}
			if g.NotNull != strings.Contains(tail, "NOT") || tail == " COMMENT 'c'" && g.Desc != "c" {
				return finding("type-spelling-attr", "%s%s imported as %+v", d, tail, *g)
			}
		}
	}
	return nil
}

// ---- C05: export then import ------------------------------------------------

func evalC05(r *Runner, c *Case) []Finding {
	r.PutSchema("in.json", c.S)
	if _, f := mustRun(r, "a.sql", "export", "mysql", "-i", "in.json", "-o", "a.sql"); f != nil {
		return f
	}
	o1, f := mustRun(r, "b.json", "import", "mysql", "-i", "a.sql", "-o", "b.json")
	if f != nil {
		f[0].Msg += "\n" + clip(r.Str("a.sql"), 1500)
		return f
	}
	got, err := parseSchema([]byte(o1))
	if err != nil {
		return finding("output-json", "%v", err)
	}
	if f := diffSchemas(got, imported(c.S, "", "", got), ""); f != nil {
		f[0].Msg += "\n" + clip(r.Str("a.sql"), 1500)
		return f
	}
	if _, f := mustRun(r, "c.sql", "export", "mysql", "-i", "b.json", "-o", "c.sql"); f != nil {
		return f
	}
	o2, f := mustRun(r, "d.json", "import", "mysql", "-i", "c.sql", "-o", "d.json")
	if f != nil {
		return f
	}
	if o1 != o2 {
		return finding("no-fixed-point", "second round trip differs:\n%s\n---\n%s", clip(o1, 900), clip(o2, 900))
	}
	return nil
}

type specialDDL struct {
	sql  string
	want *Schema
}

func specialDDLs() []specialDDL {
	tb := func(cols ...*Col) *Schema { return &Schema{Tables: []*Table{{Name: "T1", Columns: cols}}} }
	a := &Col{Name: "Id", Type: "int64", PK: true, NotNull: true}
	b := &Col{Name: "userName", Type: "varchar", Size: 20, Unique: true}
	ix := tb(a, b)
	ix.Tables[0].Indices = []*Index{{"ix1", []string{"userName", "Id"}}}
	two := tb(a, b)
	two.Tables = append(two.Tables, &Table{Name: "T2", Columns: []*Col{{Name: "x", Type: "int32"}}})
	return []specialDDL{
		{"CREATE TABLE `T1` (`Id` bigint NOT NULL, `userName` varchar(20), PRIMARY KEY (`id`), UNIQUE KEY k (`USERNAME`));", tb(a, b)},
		{"create table `db`.`T1` (`Id` bigint not null, `userName` varchar(20), primary key (`Id` asc), unique key k (`userName`(10) desc));", tb(a, b)},
		{"CREATE TABLE T1 (Id bigint NOT NULL /* key */, -- trailing\n userName varchar(20) UNIQUE, # note\n PRIMARY KEY USING BTREE (Id));", tb(a, b)},
		{"CREATE TABLE T1 (Id bigint PRIMARY KEY NOT NULL, userName varchar(20) UNIQUE KEY, INDEX ix1 USING BTREE (userName, Id)) COMMENT='x';", ix},
		{"CREATE TABLE T1 (Id bigint KEY, userName varchar(20) UNIQUE, KEY ix1 (userName, Id));", ix},
		{"USE db; CREATE TABLE T2 (x int); ALTER TABLE T2 ADD COLUMN y int; CREATE TABLE T1 (Id bigint NOT NULL PRIMARY KEY, userName varchar(20) NULL UNIQUE); DROP TABLE T9; CREATE INDEX i ON T1 (userName); DELETE FROM T1;", two},
		{"CREATE TABLE T1 (Id bigint NOT NULL, userName varchar(20), CONSTRAINT `pk` PRIMARY KEY (Id), CONSTRAINT UNIQUE (userName), CHECK (Id > 0));", tb(a, b)},
		{"CREATE TEMPORARY TABLE T1 (x int COLLATE utf8_bin) ENGINE=MEMORY;", tb(&Col{Name: "x", Type: "int32"})},
		{"CREATE TABLE T1 (x varchar(3) DEFAULT 'a''b', y int DEFAULT -5, z decimal(5,2) DEFAULT -1.5, w varchar(9) DEFAULT \"q\\\"q\" COMMENT 'c''c\\\\d');", tb(&Col{Name: "x", Type: "varchar", Size: 3, Default: "a'b"}, &Col{Name: "y", Type: "int32", Default: "-5"}, &Col{Name: "z", Type: "decimal", Size: 5, Scale: 2, Default: "-1.5"}, &Col{Name: "w", Type: "varchar", Size: 9, Default: "q\"q", Desc: "c'c\\d"})},
		{"", &Schema{}},
		{"-- nothing\nSET NAMES utf8;", &Schema{}},
	}
}

func evalSpecial(r *Runner, c *Case) []Finding {
	sp := c.X.(specialDDL)
	got, f := importSQL(r, sp.sql)
	if f != nil {
		return f
	}
	if f := diffSchemas(got, imported(sp.want, "", "", got), ""); f != nil {
		f[0].Msg += "\n" + sp.sql
		return f
	}
	return nil
}

func evalReserved(r *Runner, c *Case) []Finding {
	f := evalC05(r, c)
	for i := range f {
		if f[i].Sig == "command-failed" && strings.Contains(f[i].Msg, "near") {
			f[i].Sig = "reserved-word-" + c.Name
		}
	}
	return f
}

func init() {
	register("C04", func(x *Ctx) {
		few, all := fewStyles(), allStyles()
		x.Note("spellings_all", len(all))
		x.Note("spellings_pairwise", len(few))
		x.mysqlCatalogue()
		x.Pool(evalSpellings, func(emit func(*Case) bool) {
			for _, s := range typeSpellings {
				x.states++
				emit(&Case{Name: "type spelling " + s.ddl, X: s})
			}
		})
		x.Pool(evalExcludes, func(emit func(*Case) bool) {
			for i := 0; i < 1<<len(likeTables); i++ {
				x.states++
				x.trans++
				if !emit(&Case{Name: fmt.Sprintf("excludes %b", i), X: i}) {
					return
				}
			}
		})
		x.Pool(evalSpecial, func(emit func(*Case) bool) {
			for i, s := range specialDDLs() {
				x.states++
				emit(&Case{Name: fmt.Sprintf("special script %d", i), X: s})
			}
		})
		x.Pool(evalC04, func(emit func(*Case) bool) {
			for _, sd := range stdSeeds() {
				s := fixImportable(sd.S)
				for i := 0; i < len(all); i += 16 {
					if !emit(&Case{Name: fmt.Sprintf("%s spellings %d..", sd.Name, i), S: s, X: all[i : i+16]}) {
						return
					}
				}
			}
			sub := func(c *Case) bool { c.X = few; return emit(c) }
			x.Explore(importSeeds(), []*Alphabet{alphaFull()}, importable, sub)
			a := alphaPairs()
			n := 0
			lv := []*Alphabet{a, a}
			x.Explore(smallSeeds(), lv, importable, func(c *Case) bool {
				k := n % (len(few) - 1)
				n++
				c.X = few[k : k+1]
				if x.Thorough {
					c.X = few
				}
				return emit(c)
			})
		})
	})
	register("C05", func(x *Ctx) {
		x.Pool(evalReserved, func(emit func(*Case) bool) {
			x.states += 2
			emit(&Case{Name: "table", S: &Schema{Tables: []*Table{{Name: "group", Columns: []*Col{{Name: "id", Type: "int64"}}}}}})
			emit(&Case{Name: "column", S: &Schema{Tables: []*Table{{Name: "t", Columns: []*Col{{Name: "order", Type: "int64"}}}}}})
		})
		x.Pool(evalC05, func(emit func(*Case) bool) {
			x.Explore(importSeeds(), []*Alphabet{alphaFull()}, importable, emit)
			x.Explore(smallSeeds(), x.levels(alphaPairs()), importable, emit)
		})
	})
}

// fixImportable drops what a script cannot carry (spatial columns, empty tables).
func fixImportable(s *Schema) *Schema {
	n := s.Clone()
	n.Tables = nil
	for _, t := range s.Clone().Tables {
		var cs []*Col
		for _, c := range t.Columns {
			if c.Type != "point" && c.Type != "geometry" {
				cs = append(cs, c)
			}
			if c.Type == "decimal" && c.Size == 0 {
				c.Size = 10
			}
		}
		t.Columns = cs
		if len(cs) > 0 {
			n.Tables = append(n.Tables, t)
		}
	}
	return n
}

func importSeeds() []Seed {
	var r []Seed
	for _, s := range stdSeeds() {
		s.S = fixImportable(s.S)
		r = append(r, s)
	}
	return r
}
