package main

import (
	"fmt"
	"strings"
)

// ---- C04: catalogue of column and constraint spellings ----------------------
//
// Every column definition that the product of type spelling, nullness, default
// literal, key and comment gives, every order of its parts, and every ordered
// pair of table-level constraints, each with the column it has to be read as.

type spell struct {
	ddl, typ    string
	size, scale int
	class       string // which defaults apply
}

func colSpellings() []spell {
	var r []spell
	for _, t := range typeSpellings {
		r = append(r, spell{t.ddl, t.typ, t.size, t.scale, ""})
	}
	r = append(r, []spell{
		{"int1", "int8", 0, 0, ""}, {"int2", "int16", 0, 0, ""}, {"int3", "int24", 0, 0, ""}, {"int4", "int32", 0, 0, ""}, {"int8", "int64", 0, 0, ""},
		{"int signed", "int32", 0, 0, ""}, {"int(4) zerofill", "int32", 4, 0, ""}, {"bool", "boolean", 0, 0, ""}, {"boolean", "boolean", 0, 0, ""},
		{"tinyint(1) unsigned", "boolean", 0, 0, ""}, {"tinyint(3) unsigned", "int8", 3, 0, ""}, {"bit(2)", "bit", 2, 0, ""}, {"bit(64)", "bit", 64, 0, ""}, {"bit", "boolean", 0, 0, ""},
		{"fixed(6,2)", "decimal", 6, 2, ""}, {"decimal(65,30)", "decimal", 65, 30, ""}, {"decimal(5,0)", "decimal", 5, 0, ""}, {"decimal(7,2) unsigned", "decimal", 7, 2, ""},
		{"float unsigned", "float", 0, 0, ""}, {"double(6,2) unsigned zerofill", "double", 6, 2, ""}, {"real(8,3)", "double", 8, 3, ""},
		{"char(255)", "char", 255, 0, ""}, {"nchar(3)", "char", 3, 0, ""}, {"national char(3)", "char", 3, 0, ""}, {"national varchar(4)", "varchar", 4, 0, ""}, {"nvarchar(4)", "varchar", 4, 0, ""},
		{"varchar(5) binary", "varchar", 5, 0, ""}, {"char(5) binary", "char", 5, 0, ""}, {"varchar(7) character set binary", "varbinary", 7, 0, ""}, {"char(7) charset binary", "binary", 7, 0, ""},
		{"varchar(9) collate utf8mb4_unicode_ci", "varchar", 9, 0, ""}, {"varchar(1)", "varchar", 1, 0, ""}, {"varchar(256)", "varchar", 256, 0, ""},
		{"text charset binary", "blob16", 0, 0, ""}, {"tinytext character set binary", "blob8", 0, 0, ""}, {"longtext charset binary", "blob32", 0, 0, ""}, {"mediumtext charset binary", "blob24", 0, 0, ""},
		{"tinytext charset utf8", "text8", 0, 0, ""}, {"mediumtext binary", "text24", 0, 0, ""}, {"long varchar", "text24", 0, 0, ""}, {"long varbinary", "blob24", 0, 0, ""},
		{"year(4)", "year", 0, 0, ""}, {"time(6)", "time", 0, 0, ""},
		{"enum('a','b''c','d,e')", "enum", 0, 0, ""}, {"enum('a','B') charset utf8", "enum", 0, 0, ""}, {"set('x','y','z')", "set", 0, 0, ""}, {"enum (\"q\",'r')", "enum", 0, 0, ""},
	}...)
	for i := range r {
		s := &r[i]
		switch {
		case strings.HasPrefix(s.typ, "text"), strings.HasPrefix(s.typ, "blob"), s.typ == "json":
			s.class = "none"
		case isInt(s.typ):
			s.class = "int"
		case s.typ == "decimal" || s.typ == "float" || s.typ == "double":
			s.class = "dec"
		case s.typ == "varbinary" || s.typ == "binary":
			s.class = "bin"
		case s.typ == "char" || s.typ == "varchar":
			s.class = "str"
		default:
			s.class = s.typ
		}
	}
	return r
}

type lit struct{ ddl, want string }

var litsOf = map[string][]lit{
	"int":      {{"0", "0"}, {"1", "1"}, {"-1", "-1"}, {"- 3", "-3"}, {"+3", "3"}, {"'5'", "5"}, {"'-7'", "-7"}, {"\"8\"", "8"}, {"0x1f", "31"}, {"x'1F'", "31"}, {"b'11'", "3"}, {"0b101", "5"}, {"2147483647", "2147483647"}},
	"dec":      {{"0", "0"}, {"1.50", "1.50"}, {"-1.50", "-1.50"}, {"+1.5", "1.5"}, {"'2.25'", "2.25"}, {"3", "3"}, {"-.5", "-.5"}, {".5", ".5"}, {"0.0", "0.0"}},
	"boolean":  {{"0", "0"}, {"1", "1"}, {"b'0'", "0"}, {"b'1'", "1"}, {"'1'", "1"}, {"0b1", "1"}, {"true", "1"}, {"false", "0"}, {"TRUE", "1"}},
	"bit":      {{"0", "0"}, {"1", "1"}, {"b'10'", "2"}, {"b'0'", "0"}, {"0x3", "3"}, {"B'01'", "1"}},
	"str":      {{"'a'", "a"}, {"''", ""}, {"'it''s'", "it's"}, {"'it\\'s'", "it's"}, {"\"d\"\"q\"", "d\"q"}, {"\"it's\"", "it's"}, {"'d\"q'", "d\"q"}, {"'a' 'b'", "ab"}, {"_utf8'x'", "x"}, {"N'x'", "x"}, {"x'4142'", "AB"}, {"0x4142", "AB"}, {"'NOW()'", "NOW()"}, {"'10'", "10"}, {"5", "5"}, {"'a\\\\b'", "a\\b"}, {"' pad '", " pad "}, {"'100%'", "100%"}, {"'x;y'", "x;y"}, {"'-- c'", "-- c"}, {"'/* c */'", "/* c */"}, {"'한글'", "한글"}},
	"bin":      {{"'a'", "a"}},
	"enum":     {},
	"set":      {},
	"datetime": {{"current_timestamp", "fn::CURRENT_TIMESTAMP"}, {"current_timestamp()", "fn::CURRENT_TIMESTAMP"}, {"NOW()", "fn::NOW"}, {"now( )", "fn::NOW"}, {"CURRENT_TIMESTAMP(6)", "fn::CURRENT_TIMESTAMP"}, {"localtime", "fn::CURRENT_TIMESTAMP"}, {"localtimestamp()", "fn::CURRENT_TIMESTAMP"}, {"'2020-01-02 03:04:05'", "2020-01-02 03:04:05"}, {"'0000-00-00 00:00:00'", "0000-00-00 00:00:00"}},
	"date":     {{"'2020-01-02'", "2020-01-02"}},
	"time":     {{"'01:02:03'", "01:02:03"}},
	"year":     {{"2020", "2020"}, {"'2021'", "2021"}},
	"none":     {},
}

type colSpell struct {
	ddl  string
	want *Col
}

func permuteParts(parts []string, f func([]string)) {
	var rec func(k int)
	p := append([]string{}, parts...)
	rec = func(k int) {
		if k == len(p) {
			f(append([]string{}, p...))
			return
		}
		for i := k; i < len(p); i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// colSpells lists the definitions of columns of one type spelling.
func colSpells(s spell, thorough bool) []colSpell {
	var r []colSpell
	lits := append([]lit{{"", ""}, {"null", ""}, {"NULL", ""}}, litsOf[s.class]...)
	var values []string
	switch {
	case strings.HasPrefix(s.ddl, "enum('a','b''c'"):
		values = []string{"a", "b'c", "d,e"}
		lits = append(lits, lit{"'a'", "a"}, lit{"'b''c'", "b'c"}, lit{"'d,e'", "d,e"})
	case strings.HasPrefix(s.ddl, "enum('a','B')"):
		values = []string{"a", "B"}
		lits = append(lits, lit{"'B'", "B"})
	case strings.HasPrefix(s.ddl, "enum ("):
		values = []string{"q", "r"}
		lits = append(lits, lit{"\"q\"", "q"})
	case s.typ == "set":
		values = []string{"x", "y", "z"}
		lits = append(lits, lit{"'x'", "x"}, lit{"'x,z'", "x,z"}, lit{"''", ""})
	}
	for _, null := range []string{"", "null", "not null"} {
		for _, l := range lits {
			if null == "not null" && strings.EqualFold(l.ddl, "null") {
				continue
			}
			for _, uq := range []string{"", "unique", "unique key"} {
				if uq != "" && s.class == "none" {
					continue
				}
				for _, cm := range []string{"", "comment 'c1'"} {
					var parts []string
					add := func(p string) {
						if p != "" {
							parts = append(parts, p)
						}
					}
					add(null)
					if l.ddl != "" {
						add("default " + l.ddl)
					}
					add(uq)
					add(cm)
					upd := []string{""}
					if s.typ == "datetime" {
						upd = append(upd, "on update current_timestamp", "on update now()", "on update CURRENT_TIMESTAMP(3)")
					}
					for _, u := range upd {
						ps := parts
						if u != "" {
							ps = append(append([]string{}, parts...), u)
						}
						w := &Col{Type: s.typ, Size: s.size, Scale: s.scale, NotNull: null == "not null", Unique: uq != "", Default: l.want, Values: values}
						if cm != "" {
							w.Desc = "c1"
						}
						if u != "" {
							w.OnUpdate = "fn::CURRENT_TIMESTAMP"
						}
						n := 0
						permuteParts(ps, func(p []string) {
							n++
							if thorough || n <= 2 || len(ps) <= 2 {
								r = append(r, colSpell{s.ddl + " " + strings.Join(p, " "), w})
							}
						})
					}
				}
			}
		}
	}
	if s.class == "int" {
		for _, k := range []string{"auto_increment primary key", "primary key auto_increment", "not null auto_increment primary key", "auto_increment key", "primary key not null auto_increment comment 'c1'", "auto_increment not null unique"} {
			w := &Col{Type: s.typ, Size: s.size, Scale: s.scale, NotNull: true, AutoInc: true, PK: strings.Contains(k, "key"), Unique: strings.Contains(k, "unique")}
			if strings.Contains(k, "comment") {
				w.Desc = "c1"
			}
			r = append(r, colSpell{s.ddl + " " + k, w})
		}
	}
	if s.class != "none" {
		for _, k := range []string{"primary key", "key", "not null primary key", "PRIMARY KEY NOT NULL", "primary key comment 'c1'"} {
			w := &Col{Type: s.typ, Size: s.size, Scale: s.scale, NotNull: true, PK: true, Values: values}
			if strings.Contains(k, "comment") {
				w.Desc = "c1"
			}
			r = append(r, colSpell{s.ddl + " " + k, w})
		}
	}
	return r
}

// evalColSpells imports one script with many tables of many columns.
func evalColSpells(r *Runner, c *Case) []Finding {
	specs := c.X.([]colSpell)
	var b strings.Builder
	const per = 40
	for i, s := range specs {
		if i%per == 0 {
			fmt.Fprintf(&b, "CREATE TABLE `t%d` (\n", i/per)
		}
		fmt.Fprintf(&b, " `c%d` %s", i, s.ddl)
		if i%per == per-1 || i == len(specs)-1 {
			b.WriteString("\n);\n")
		} else {
			b.WriteString(",\n")
		}
	}
	got, f := importSQL(r, b.String())
	if f != nil {
		return f
	}
	for i, s := range specs {
		t := got.Table(fmt.Sprintf("t%d", i/per))
		if t == nil || len(t.Columns) <= i%per {
			return finding("spelling-lost", "no column for %s", s.ddl)
		}
		g := t.Columns[i%per]
		w := *s.want
		w.Name = fmt.Sprintf("c%d", i)
		if sameDefault(&w, g.Default, w.Default) || s.want.Type == "boolean" && sameBool(g.Default, w.Default) {
			w.Default = g.Default
		}
		if sameDefault(&w, g.OnUpdate, w.OnUpdate) {
			w.OnUpdate = g.OnUpdate
		}
		if fmt.Sprintf("%+v", Norm1(g)) != fmt.Sprintf("%+v", Norm1(&w)) {
			return finding("spelling:"+s.want.Type, "%s\nimported as %s\nwant        %s", s.ddl, showCol(g), colText(&w))
		}
	}
	return nil
}

func sameBool(a, b string) bool {
	n := func(s string) string {
		switch strings.ToLower(s) {
		case "true":
			return "1"
		case "false":
			return "0"
		}
		return s
	}
	return n(a) == n(b)
}

func Norm1(c *Col) Col {
	n := *c
	if len(n.Values) == 0 {
		n.Values = nil
	}
	return n
}

func showCol(c *Col) string { return fmt.Sprintf("%+v", *c) }

// ---- table level constraints --------------------------------------------------

type consSpell struct {
	ddl  string
	pk   []int // columns a b c d
	uq   []int
	ix   []int
	name string
}

var consSpells = []consSpell{
	{"primary key (`a`)", []int{0}, nil, nil, ""},
	{"PRIMARY KEY (a, b)", []int{0, 1}, nil, nil, ""},
	{"constraint pk1 primary key using btree (b desc, a)", []int{0, 1}, nil, nil, ""},
	{"constraint primary key (A) using hash", []int{0}, nil, nil, ""},
	{"primary key (`d`(5), c) comment 'x'", []int{2, 3}, nil, nil, ""},
	{"unique (a)", nil, []int{0}, nil, ""},
	{"unique key (`b`,`c`)", nil, []int{1, 2}, nil, ""},
	{"unique index ui (D(3))", nil, []int{3}, nil, ""},
	{"unique key u4 (a, d(7))", nil, []int{0, 3}, nil, ""},
	{"primary key (d(20), a)", []int{0, 3}, nil, nil, ""},
	{"constraint u1 unique (c)", nil, []int{2}, nil, ""},
	{"constraint u2 unique key uu (a asc, c desc)", nil, []int{0, 2}, nil, ""},
	{"CONSTRAINT UNIQUE INDEX uu2 USING HASH (b)", nil, []int{1}, nil, ""},
	{"unique uu3 (a) using btree comment 'x'", nil, []int{0}, nil, ""},
	{"index i1 (a)", nil, nil, []int{0}, "i1"},
	{"key `i2` (b, a)", nil, nil, []int{1, 0}, "i2"},
	{"INDEX I3 USING BTREE (c)", nil, nil, []int{2}, "I3"},
	{"key i4 (d(10), b desc) using btree", nil, nil, []int{3, 1}, "i4"},
	{"index i5 (C, B, A)", nil, nil, []int{2, 1, 0}, "i5"},
	{"index (c)", nil, nil, []int{2}, "*"},
	{"key (d, a) comment 'x'", nil, nil, []int{3, 0}, "*"},
	{"constraint f1 foreign key (a) references p (id)", nil, nil, nil, ""},
	{"foreign key fi (b, c) references p (x, y) on delete cascade on update set null", nil, nil, nil, ""},
	{"check (a > 0)", nil, nil, nil, ""},
	{"constraint c1 check (b <> 'unique')", nil, nil, nil, ""},
}

// tableWraps are the ways to write the statement around the definitions.
var tableWraps = []struct{ pre, post string }{
	{"CREATE TABLE T (", ");"},
	{"create table `T`(", ")"},
	{"Create Temporary Table T (", ") engine = memory;"},
	{"CREATE TABLE IF NOT EXISTS `db`.`T` (", ") ENGINE=InnoDB AUTO_INCREMENT=12 DEFAULT CHARSET=utf8mb4 COLLATE=utf8mb4_bin COMMENT='create table U (z int);';"},
	{"/*!40101 SET @saved_cs_client = @@character_set_client */;\n# x\n-- create table V (a int);\n/* create table W (a int); */ CREATE TABLE db.T (", ") ROW_FORMAT=DYNAMIC;\n/*!40101 SET character_set_client = @saved_cs_client */;\nLOCK TABLES `T` WRITE;\nINSERT INTO `T` VALUES (1,2,3,'create table X (a int);');\nUNLOCK TABLES;"},
	{"USE `db`;\r\n\r\nDROP TABLE IF EXISTS T;\r\nCREATE TABLE T\r\n(\r\n", "\r\n)\r\nCHARACTER SET = utf8;\r\n"},
	{"SET NAMES utf8mb4; START TRANSACTION; CREATE TABLE T (", ") PARTITION BY HASH(a) PARTITIONS 4; COMMIT;"},
}

func evalCons(r *Runner, c *Case) []Finding {
	x := c.X.([]int) // wrap, position of constraints, constraint indices...
	wrap := tableWraps[x[0]]
	cols := []string{"`a` int", "B bigint", "c smallint", "d varchar(20)"}
	want := &Table{Name: "T", Columns: []*Col{{Name: "a", Type: "int32"}, {Name: "B", Type: "int64"}, {Name: "c", Type: "int16"}, {Name: "d", Type: "varchar", Size: 20}}}
	defs := append([]string{}, cols...)
	var cons []string
	for _, k := range x[2:] {
		s := consSpells[k]
		cons = append(cons, s.ddl)
		for _, i := range s.pk {
			want.Columns[i].PK = true
		}
		for _, i := range s.uq {
			want.Columns[i].Unique = true
		}
		if s.ix != nil {
			n := &Index{Name: s.name}
			for _, i := range s.ix {
				n.Columns = append(n.Columns, want.Columns[i].Name)
			}
			want.Indices = append(want.Indices, n)
		}
	}
	switch x[1] {
	case 0:
		defs = append(defs, cons...)
	case 1:
		defs = append(cons, cols...)
	case 2:
		defs = nil
		for i, d := range cols {
			defs = append(defs, d)
			if i < len(cons) {
				defs = append(defs, cons[i])
			}
		}
	}
	sql := wrap.pre + strings.Join(defs, ",\n ") + wrap.post
	got, f := importSQL(r, sql)
	if f != nil {
		return f
	}
	if len(got.Tables) == 1 {
		g := got.Tables[0]
		for i, n := range want.Indices {
			if i >= len(g.Indices) {
				break
			}
			if n.Name == "*" {
				n.Name = g.Indices[i].Name // an unnamed index may get any name
			}
		}
		for i, c := range want.Columns {
			if c.PK && i < len(g.Columns) {
				c.NotNull = g.Columns[i].NotNull // implied by the key
			}
		}
	}
	if f := diffSchemas(got, Norm(&Schema{Tables: []*Table{want}}), ""); f != nil {
		f[0].Msg += "\n" + sql
		return f
	}
	return nil
}

// catalogue adds the pools of the catalogue to C04.
func (x *Ctx) mysqlCatalogue() {
	x.Pool(evalColSpells, func(emit func(*Case) bool) {
		n := 0
		for _, s := range colSpellings() {
			all := colSpells(s, x.Thorough)
			n += len(all)
			for i := 0; i < len(all); i += 400 {
				j := i + 400
				if j > len(all) {
					j = len(all)
				}
				x.states += int64(j - i)
				if !emit(&Case{Name: fmt.Sprintf("columns %s %d..", s.ddl, i), X: all[i:j]}) {
					return
				}
			}
		}
		x.Note("column_spellings", n)
	})
	x.Pool(evalCons, func(emit func(*Case) bool) {
		pk := func(k int) bool { return consSpells[k].pk != nil }
		put := func(v ...int) bool {
			x.states++
			return emit(&Case{Name: fmt.Sprintf("constraints %v", v), X: v})
		}
		for w := range tableWraps {
			if !put(w, 0) {
				return
			}
			for pos := 0; pos < 3; pos++ {
				for a := range consSpells {
					if !put(w, pos, a) {
						return
					}
					if w > 0 && !x.Thorough && pos > 0 {
						continue
					}
					for b := range consSpells {
						if pk(a) && pk(b) || a == b {
							continue
						}
						if w > 1 && !x.Thorough && (a+b)%len(tableWraps) != w {
							continue
						}
						if !put(w, pos, a, b) {
							return
						}
					}
				}
			}
		}
	})
}
