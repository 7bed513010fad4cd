package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

var mysqlTypeOf = map[string]string{
	"binary": "binary", "bit": "bit", "blob8": "tinyblob", "blob16": "blob", "blob24": "mediumblob", "blob32": "longblob",
	"boolean": "bit", "char": "char", "date": "date", "datetime": "datetime", "decimal": "decimal", "double": "double",
	"enum": "enum", "float": "float", "geometry": "geometry", "int8": "tinyint", "int16": "smallint", "int24": "mediumint",
	"int32": "int", "int64": "bigint", "json": "json", "point": "point", "set": "set", "text8": "tinytext", "text16": "text",
	"text24": "mediumtext", "text32": "longtext", "time": "time", "varbinary": "varbinary", "varchar": "varchar", "year": "year",
}

func sizedType(t string) bool {
	switch t {
	case "binary", "bit", "char", "decimal", "double", "float", "int8", "int16", "int24", "int32", "int64", "varbinary", "varchar":
		return true
	}
	return false
}

func numArgs(c *Col) string {
	if !sizedType(c.Type) || c.Size == 0 {
		return ""
	}
	if c.Scale > 0 {
		return fmt.Sprintf("%d,%d", c.Size, c.Scale)
	}
	return strconv.Itoa(c.Size)
}

func stringLike(t string) bool {
	return t == "char" || t == "varchar" || isText(t) || t == "enum" || t == "set"
}

func isNumber(s string) bool {
	_, err := strconv.ParseFloat(s, 64)
	return err == nil
}

// saneValue says that v is meaningful as a default / on-update value of column c.
func saneValue(c *Col, v string) bool {
	if v == "" {
		return true
	}
	t := canonType(c.Type)
	if f, fn := fnDefault(v); fn {
		return f != "" && (t == "datetime" || t == "date" || t == "time" || stringLike(t))
	}
	switch {
	case t == "char" || t == "varchar" || isText(t):
		return true
	case t == "enum" || t == "set":
		for _, x := range c.Values {
			if x == v {
				return true
			}
		}
		return false
	case isInt(t):
		n, err := strconv.ParseInt(v, 10, 64)
		k := uint(map[string]int{"int8": 8, "int16": 16, "int24": 24, "int32": 32, "int64": 63}[t])
		return err == nil && (k == 63 || n < 1<<k && n >= -1<<(k-1))
	case isDec(t):
		return isNumber(v)
	case t == "boolean":
		return v == "0" || v == "1" || v == "true" || v == "false"
	case t == "bit":
		return v == "0" || v == "1"
	case t == "datetime" || t == "date" || t == "time":
		return v[0] >= '0' && v[0] <= '9' && len(v) > 4
	case t == "year":
		_, err := strconv.ParseInt(v, 10, 64)
		return err == nil && len(v) == 4
	}
	return false
}

// saneSchema keeps states whose values mean something for their types.
func saneSchema(s *Schema) bool {
	if !uniqueNames(s) || Valid(s) != nil {
		return false
	}
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			if !saneValue(c, c.Default) || !saneUpdate(c) {
				return false
			}
			if c.Scale > 0 && (!isDec(canonType(c.Type)) || c.Size < c.Scale) {
				return false
			}
			ct := canonType(c.Type)
			if (c.PK || c.Unique) && (isText(ct) || isBlob(ct) || ct == "json" || ct == "geometry" || ct == "point") {
				continue
			}
		}
	}
	return true
}

func saneUpdate(c *Col) bool {
	if c.OnUpdate == "" {
		return true
	}
	t := canonType(c.Type)
	if f, fn := fnDefault(c.OnUpdate); fn {
		return f != "" && t == "datetime"
	}
	return t == "varchar" || t == "char" || isInt(t) && isNumber(c.OnUpdate)
}

// expected value of DEFAULT / ON UPDATE
func wantVal(c *Col, v string) *DVal {
	if v == "" {
		return nil
	}
	if f, fn := fnDefault(v); fn {
		return &DVal{"fn", f}
	}
	switch {
	case stringLike(c.Type):
		return &DVal{"str", v}
	case c.Type == "datetime" || c.Type == "date" || c.Type == "time":
		return &DVal{"str", v}
	case isNumber(v):
		return &DVal{"num", v}
	}
	return &DVal{"bare", v}
}

var bareFns = map[string]bool{"CURRENT_TIMESTAMP": true, "LOCALTIME": true, "LOCALTIMESTAMP": true, "CURRENT_DATE": true, "CURRENT_TIME": true}

func sameVal(got, want *DVal) bool {
	if got == nil || want == nil {
		return got == want
	}
	if want.Kind == "fn" && got.Kind == "bare" && bareFns[strings.ToUpper(got.Text)] {
		return strings.EqualFold(got.Text, want.Text)
	}
	if want.Kind == "fn" && got.Kind == "fn" {
		return strings.EqualFold(got.Text, want.Text)
	}
	if want.Kind == "num" && got.Kind == "num" {
		a, _ := strconv.ParseFloat(got.Text, 64)
		b, _ := strconv.ParseFloat(want.Text, 64)
		return a == b
	}
	if want.Kind == "num" && got.Kind == "str" { // '0' is accepted for a number
		return got.Text == want.Text
	}
	if want.Kind == "bare" && got.Kind == "bare" {
		return strings.EqualFold(got.Text, want.Text)
	}
	return *got == *want
}

// diffDCol compares a declared column with the schema's column.
func diffDCol(where string, g *DCol, c *Col) []Finding {
	if g.Name != c.Name {
		return finding("column-name", "%s: column %q declared, schema has %q", where, g.Name, c.Name)
	}
	where += "." + c.Name
	if g.Type != mysqlTypeOf[c.Type] && !(c.Type == "int32" && g.Type == "integer") {
		return finding("column-type:"+c.Type, "%s: type %q for %s", where, g.Type, c.Type)
	}
	wa := numArgs(c)
	if c.Type == "boolean" {
		wa = "1"
	}
	if g.Args != wa {
		return finding("column-size:"+c.Type, "%s: type arguments (%s), want (%s) for %s size=%d scale=%d", where, g.Args, wa, c.Type, c.Size, c.Scale)
	}
	if c.Type == "enum" || c.Type == "set" {
		if !reflect.DeepEqual(g.Values, c.Values) {
			return finding("column-values", "%s: values %q, want %q", where, g.Values, c.Values)
		}
	} else if len(g.Values) > 0 {
		return finding("column-values", "%s: unexpected values %q", where, g.Values)
	}
	if len(g.Attrs) > 0 {
		return finding("column-attrs", "%s: unexpected attributes %v", where, g.Attrs)
	}
	if g.NotNull != c.NotNull {
		return finding("column-notnull", "%s: NOT NULL=%v, want %v", where, g.NotNull, c.NotNull)
	}
	if g.AutoInc != c.AutoInc {
		return finding("column-autoinc", "%s: AUTO_INCREMENT=%v, want %v", where, g.AutoInc, c.AutoInc)
	}
	if w := wantVal(c, c.Default); !sameVal(g.Default, w) {
		return finding("column-default:"+c.Type, "%s: DEFAULT %v, want %v", where, g.Default, w)
	}
	if w := wantVal(c, c.OnUpdate); !sameVal(g.OnUpdate, w) {
		return finding("column-onupdate", "%s: ON UPDATE %v, want %v", where, g.OnUpdate, w)
	}
	if g.Comment != c.Desc {
		return finding("column-comment", "%s: COMMENT %q, want %q", where, g.Comment, c.Desc)
	}
	return nil
}

func diffDTable(g *DTable, t *Table, suffix string) []Finding {
	if g.Name != t.Name {
		return finding("table-name", "table %q declared, schema has %q", g.Name, t.Name)
	}
	if len(g.Cols) != len(t.Columns) {
		return finding("column-count", "%s: %d columns declared, schema has %d", t.Name, len(g.Cols), len(t.Columns))
	}
	for i, c := range t.Columns {
		if f := diffDCol(t.Name, g.Cols[i], c); f != nil {
			return f
		}
	}
	if strings.Join(g.PK, "\x00") != strings.Join(names(t.PKs()), "\x00") {
		return finding("primary-key", "%s: primary key %q, want %q", t.Name, g.PK, names(t.PKs()))
	}
	uq := names(t.Uniques())
	if len(uq) == 0 && len(g.Uniques) > 0 || len(uq) > 0 && (len(g.Uniques) != 1 || g.Uniques[0].Name != t.Name+suffix || !reflect.DeepEqual(g.Uniques[0].Cols, uq)) {
		return finding("unique-key", "%s: unique keys %v, want {%s %v}", t.Name, g.Uniques, t.Name+suffix, uq)
	}
	if len(g.Indexes) != len(t.Indices) {
		return finding("index-count", "%s: %d indexes, want %d", t.Name, len(g.Indexes), len(t.Indices))
	}
	for i, ix := range t.Indices {
		if g.Indexes[i].Name != ix.Name || !reflect.DeepEqual(g.Indexes[i].Cols, ix.Columns) {
			return finding("index", "%s: index %v, want %v", t.Name, g.Indexes[i], *ix)
		}
	}
	return nil
}

func diffDDL(sql string, want *Schema, suffix string) []Finding {
	stmts, err := parseSQL(sql)
	if err != nil {
		return finding("sql-syntax", "not valid MySQL: %v\n%s", err, clip(sql, 800))
	}
	var ts []*DTable
	for _, s := range stmts {
		if s.Kind != "create" {
			return finding("extra-statement", "unexpected statement %s %s", s.Kind, s.Table)
		}
		ts = append(ts, s.T)
	}
	if len(ts) != len(want.Tables) {
		return finding("table-count", "%d CREATE TABLE statements, want %d", len(ts), len(want.Tables))
	}
	for i, t := range want.Tables {
		if f := diffDTable(ts[i], t, suffix); f != nil {
			return f
		}
	}
	return nil
}

// mustRun runs a command that has to succeed and returns the output file.
func mustRun(r *Runner, out string, args ...string) (string, []Finding) {
	res := r.Run(args...)
	if !res.OK() {
		return "", finding("command-failed", "oct %s: exit %d: %s", strings.Join(args, " "), res.Exit, clip(res.Out, 600))
	}
	b, ok := r.Get(out)
	if !ok {
		return "", finding("no-output", "oct %s succeeded but wrote no %s", strings.Join(args, " "), out)
	}
	return string(b), nil
}

type mysqlOpt struct {
	groups []string
	suffix string
}

func groupsOf(s *Schema) []string {
	seen := map[string]bool{}
	var r []string
	for _, t := range s.Tables {
		if t.Group != "" && !seen[t.Group] {
			seen[t.Group] = true
			r = append(r, t.Group)
		}
	}
	return r
}

func evalC03(r *Runner, c *Case) []Finding {
	r.PutSchema("in.json", c.S)
	n := Norm(c.S)
	sql, f := mustRun(r, "o.sql", "export", "mysql", "-i", "in.json", "-o", "o.sql")
	if f != nil {
		return f
	}
	if f := diffDDL(sql, n, ""); f != nil {
		return f
	}
	if c.Heavy {
		sql, f := mustRun(r, "o2.sql", "export", "mysql", "-i", "in.json", "-o", "o2.sql", "-u", "_uq")
		if f != nil {
			return f
		}
		if f := diffDDL(sql, n, "_uq"); f != nil {
			return f
		}
		if gs := groupsOf(c.S); len(gs) > 0 {
			for _, g := range [][]string{gs[:1], gs} {
				sql, f := mustRun(r, "o3.sql", "export", "mysql", "-i", "in.json", "-o", "o3.sql", "-g", strings.Join(g, ","))
				if f != nil {
					return f
				}
				if f := diffDDL(sql, Filter(n, g), ""); f != nil {
					f[0].Sig = "group-" + f[0].Sig
					return f
				}
			}
		}
	}
	return nil
}

func heavyFirst(emit func(*Case) bool, maxTrace int) func(*Case) bool {
	return func(c *Case) bool {
		c.Heavy = len(c.Trace) <= maxTrace
		return emit(c)
	}
}

func init() {
	register("C03", func(x *Ctx) {
		seeds := stdSeeds()
		full, red := alphaFull(), alphaPairs()
		x.Pool(evalC03, func(emit func(*Case) bool) {
			x.Explore(seeds, []*Alphabet{full}, saneSchema, heavyFirst(emit, 1))
			x.Explore(smallSeeds(), x.levels(red), saneSchema, heavyFirst(emit, 1))
		})
	})
}
