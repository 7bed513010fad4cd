package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"gopkg.in/yaml.v2"
)

// An abstract database on which changelogs are executed.

type dbCol struct {
	Name, Type string
	NotNull    bool
	AutoInc    bool
	DefKind    string // "", value, fn
	Def        string
	Remarks    string
}

type dbTable struct {
	Name    string
	Cols    []*dbCol
	PK      []string
	Uniq    []DKey
	Remarks string
}

type DB struct {
	T map[string]*dbTable
}

func (t *dbTable) col(n string) *dbCol {
	for _, c := range t.Cols {
		if c.Name == n {
			return c
		}
	}
	return nil
}

func (t *dbTable) colNames() []string {
	var r []string
	for _, c := range t.Cols {
		r = append(r, c.Name)
	}
	return r
}

var lqTypeOf = map[string]string{
	"text8": "clob", "text16": "clob", "text24": "clob", "text32": "clob", "int8": "tinyint", "int16": "smallint", "int24": "mediumint",
	"int32": "int", "int64": "bigint", "blob8": "blob", "blob16": "blob", "blob24": "blob", "blob32": "blob",
}

func lqType(c *Col) string {
	t := canonType(c.Type)
	if x, ok := lqTypeOf[t]; ok {
		t = x
	}
	if t == "enum" || t == "set" {
		return fmt.Sprintf("%s%q", t, c.Values)
	}
	if c.Size > 0 {
		if c.Scale > 0 {
			return fmt.Sprintf("%s(%d,%d)", t, c.Size, c.Scale)
		}
		return fmt.Sprintf("%s(%d)", t, c.Size)
	}
	return t
}

// lqReadType is the type written in a changelog: enum('a', 'b') in any spelling
// MySQL reads as the same list becomes enum["a" "b"].
func lqReadType(s string) string {
	l := strings.ToLower(s)
	for _, base := range []string{"enum", "set"} {
		rest := strings.TrimSpace(strings.TrimPrefix(l, base))
		if !strings.HasPrefix(l, base) || !strings.HasPrefix(rest, "(") || !strings.HasSuffix(rest, ")") {
			continue
		}
		body := []rune(s[strings.IndexByte(s, '(')+1 : strings.LastIndexByte(s, ')')])
		vals := []string{}
		for i := 0; i < len(body); {
			if body[i] == ' ' || body[i] == ',' && len(vals) > 0 {
				i++
				continue
			}
			if body[i] != '\'' {
				return s
			}
			v, closed := "", false
			for i++; i < len(body) && !closed; i++ {
				switch {
				case body[i] == '\\' && i+1 < len(body):
					i++
					v += string(body[i])
				case body[i] == '\'' && i+1 < len(body) && body[i+1] == '\'':
					i++
					v += "'"
				case body[i] == '\'':
					closed = true
				default:
					v += string(body[i])
				}
			}
			if !closed {
				return s
			}
			vals = append(vals, v)
		}
		return fmt.Sprintf("%s%q", base, vals)
	}
	return s
}

func canonDefault(c *Col, v string) (kind, val string) {
	if v == "" {
		return "", ""
	}
	if f, fn := fnDefault(v); fn {
		return "fn", f
	}
	return "value", canonVal(canonType(c.Type), v)
}

func canonVal(t, v string) string {
	if t == "boolean" || t == "bit" {
		switch strings.ToLower(v) {
		case "true", "1":
			return "1"
		case "false", "0":
			return "0"
		}
	}
	if (isNumeric(t) || t == "year") && isNumber(v) {
		if r, ok := new(big.Rat).SetString(v); ok {
			return r.RatString()
		}
	}
	return v
}

// lqDB is the database a schema describes, in Liquibase's terms.
func lqDB(s *Schema, suffix string) *DB {
	d := &DB{T: map[string]*dbTable{}}
	for _, t := range s.Tables {
		x := &dbTable{Name: t.Name, Remarks: t.Desc, PK: names(t.PKs())}
		for _, c := range t.Columns {
			n := &dbCol{Name: c.Name, Type: lqType(c), NotNull: c.NotNull, AutoInc: c.AutoInc, Remarks: c.Desc}
			n.DefKind, n.Def = canonDefault(c, c.Default)
			x.Cols = append(x.Cols, n)
		}
		if u := names(t.Uniques()); len(u) > 0 {
			x.Uniq = []DKey{{t.Name + suffix, u}}
		}
		d.T[t.Name] = x
	}
	return d
}

// ---- Liquibase interpreter --------------------------------------------------

type lqEnv struct {
	Dbms       string
	RenameNull bool // renaming a column loses its NOT NULL (Liquibase before 4.0)
	DropKeys   bool // dropping a column drops the keys containing it entirely
}

type lqChange struct {
	kind string
	m    map[interface{}]interface{}
}
type lqSet struct {
	id, author string
	pre        map[interface{}]interface{}
	changes    []lqChange
}

func parseLq(src string) ([]lqSet, error) {
	var root map[string]interface{}
	if err := yaml.UnmarshalStrict([]byte(src), &root); err != nil {
		return nil, fmt.Errorf("yaml: %v", err)
	}
	list, ok := root["databaseChangeLog"].([]interface{})
	if !ok || len(root) != 1 {
		return nil, fmt.Errorf("no databaseChangeLog list")
	}
	var out []lqSet
	ids := map[string]bool{}
	for _, it := range list {
		m, ok := it.(map[interface{}]interface{})
		if !ok || len(m) != 1 {
			return nil, fmt.Errorf("bad changelog item %v", it)
		}
		for k, v := range m {
			if k == "objectQuotingStrategy" {
				if v != "QUOTE_ALL_OBJECTS" && v != "LEGACY" && v != "QUOTE_ONLY_RESERVED_WORDS" {
					return nil, fmt.Errorf("bad objectQuotingStrategy %v", v)
				}
				continue
			}
			if k != "changeSet" {
				return nil, fmt.Errorf("unknown changelog item %v", k)
			}
			cm, ok := v.(map[interface{}]interface{})
			if !ok {
				return nil, fmt.Errorf("bad changeSet")
			}
			s := lqSet{}
			for ck, cv := range cm {
				switch ck {
				case "id":
					s.id = fmt.Sprint(cv)
				case "author":
					s.author = fmt.Sprint(cv)
				case "preConditions":
					s.pre, ok = cv.(map[interface{}]interface{})
					if !ok {
						return nil, fmt.Errorf("bad preConditions")
					}
				case "changes":
					cl, ok := cv.([]interface{})
					if !ok {
						return nil, fmt.Errorf("bad changes")
					}
					for _, ch := range cl {
						x, ok := ch.(map[interface{}]interface{})
						if !ok || len(x) != 1 {
							return nil, fmt.Errorf("bad change %v", ch)
						}
						for kk, vv := range x {
							b, ok := vv.(map[interface{}]interface{})
							if !ok {
								return nil, fmt.Errorf("bad change %v", kk)
							}
							s.changes = append(s.changes, lqChange{fmt.Sprint(kk), b})
						}
					}
				default:
					return nil, fmt.Errorf("unknown changeSet property %v", ck)
				}
			}
			if s.id == "" || ids[s.id] {
				return nil, fmt.Errorf("change set id %q missing or repeated", s.id)
			}
			ids[s.id] = true
			if len(s.changes) == 0 {
				return nil, fmt.Errorf("change set %s has no change", s.id)
			}
			out = append(out, s)
		}
	}
	return out, nil
}

func lqStr(m map[interface{}]interface{}, k string) string {
	if v, ok := m[k]; ok && v != nil {
		return fmt.Sprint(v)
	}
	return ""
}

func lqList(s string) []string {
	var r []string
	for _, x := range strings.Split(s, ",") {
		r = append(r, strings.TrimSpace(x))
	}
	return r
}

func lqOnly(m map[interface{}]interface{}, keys ...string) error {
	for k := range m {
		if !contains(keys, fmt.Sprint(k)) {
			return fmt.Errorf("unknown property %v", k)
		}
	}
	return nil
}

func lqDefaultOf(m map[interface{}]interface{}, typ string) (kind, val string, err error) {
	n := 0
	base := typ
	if i := strings.IndexAny(base, "(["); i >= 0 {
		base = base[:i]
	}
	ct := canonType(base)
	for _, k := range []string{"defaultValue", "defaultValueBoolean", "defaultValueNumeric", "defaultValueDate", "defaultValueComputed"} {
		v, ok := m[k]
		if !ok {
			continue
		}
		n++
		s := fmt.Sprint(v)
		kind, val = "value", canonVal(ct, s)
		switch k {
		case "defaultValueComputed":
			kind, val = "fn", s
		case "defaultValue", "defaultValueDate":
			if _, ok := v.(string); !ok {
				return "", "", fmt.Errorf("%s is not a string: %v (%T)", k, v, v)
			}
			if k == "defaultValueDate" && ct != "date" && ct != "datetime" && ct != "time" {
				return "", "", fmt.Errorf("date default for %s", typ)
			}
		case "defaultValueBoolean":
			if _, ok := v.(bool); !ok || ct != "boolean" && ct != "bit" {
				return "", "", fmt.Errorf("boolean default %v for %s", v, typ)
			}
		case "defaultValueNumeric":
			if !isNumber(s) || !isNumeric(ct) && ct != "year" && ct != "bit" {
				return "", "", fmt.Errorf("numeric default %v for %s", v, typ)
			}
		}
	}
	if n > 1 {
		return "", "", fmt.Errorf("more than one default value")
	}
	return kind, val, nil
}

func lqColumn(it interface{}) (c *dbCol, pk, uq bool, after string, err error) {
	m, ok := it.(map[interface{}]interface{})
	if !ok || len(m) != 1 {
		return nil, false, false, "", fmt.Errorf("bad column entry")
	}
	b, ok := m["column"].(map[interface{}]interface{})
	if !ok {
		return nil, false, false, "", fmt.Errorf("bad column entry")
	}
	if err = lqOnly(b, "name", "type", "autoIncrement", "constraints", "remarks", "defaultValue", "defaultValueBoolean", "defaultValueNumeric", "defaultValueDate", "defaultValueComputed", "afterColumn"); err != nil {
		return
	}
	c = &dbCol{Name: lqStr(b, "name"), Type: lqReadType(lqStr(b, "type")), Remarks: lqStr(b, "remarks")}
	if c.Name == "" || c.Type == "" {
		return nil, false, false, "", fmt.Errorf("column without name or type")
	}
	after = lqStr(b, "afterColumn")
	if v, ok := b["autoIncrement"]; ok {
		c.AutoInc, ok = v.(bool)
		if !ok {
			return nil, false, false, "", fmt.Errorf("bad autoIncrement")
		}
	}
	if v, ok := b["constraints"]; ok {
		cm, ok := v.(map[interface{}]interface{})
		if !ok {
			return nil, false, false, "", fmt.Errorf("bad constraints")
		}
		for k, v := range cm {
			bv, ok := v.(bool)
			if !ok {
				return nil, false, false, "", fmt.Errorf("bad constraint %v", k)
			}
			switch k {
			case "primaryKey":
				pk = bv
			case "unique":
				uq = bv
			case "nullable":
				c.NotNull = !bv
			default:
				return nil, false, false, "", fmt.Errorf("unknown constraint %v", k)
			}
		}
	}
	c.DefKind, c.Def, err = lqDefaultOf(b, c.Type)
	return
}

func (d *DB) exec(sets []lqSet, env lqEnv) error {
	for _, s := range sets {
		if s.pre != nil {
			run := true
			onFail := "HALT"
			for k, v := range s.pre {
				switch k {
				case "onFail":
					onFail = fmt.Sprint(v)
				case "onError":
				case "dbms":
					m, ok := v.(map[interface{}]interface{})
					if !ok {
						return fmt.Errorf("%s: bad dbms precondition", s.id)
					}
					run = contains(lqList(lqStr(m, "type")), env.Dbms)
				default:
					return fmt.Errorf("%s: unknown precondition %v", s.id, k)
				}
			}
			if !run {
				if onFail == "HALT" {
					return fmt.Errorf("%s: precondition halts the update", s.id)
				}
				continue
			}
		}
		for _, c := range s.changes {
			if err := d.change(c, env); err != nil {
				return fmt.Errorf("change set %s: %s: %v", s.id, c.kind, err)
			}
		}
	}
	return nil
}

func (d *DB) change(c lqChange, env lqEnv) error {
	m := c.m
	tn := lqStr(m, "tableName")
	t := d.T[tn]
	needT := func() error {
		if t == nil {
			return fmt.Errorf("no table %q", tn)
		}
		return nil
	}
	cn := lqStr(m, "columnName")
	needC := func() (*dbCol, error) {
		if err := needT(); err != nil {
			return nil, err
		}
		if x := t.col(cn); x != nil {
			return x, nil
		}
		return nil, fmt.Errorf("no column %q in %q", cn, tn)
	}
	typeOK := func(x *dbCol) error {
		if v := lqStr(m, "columnDataType"); v != "" && lqReadType(v) != x.Type {
			return fmt.Errorf("column %s.%s has type %s, not %s", tn, cn, x.Type, v)
		}
		return nil
	}
	switch c.kind {
	case "createTable":
		if err := lqOnly(m, "tableName", "remarks", "columns"); err != nil {
			return err
		}
		if tn == "" || t != nil {
			return fmt.Errorf("table %q exists already", tn)
		}
		t = &dbTable{Name: tn, Remarks: lqStr(m, "remarks")}
		cl, ok := m["columns"].([]interface{})
		if !ok {
			return fmt.Errorf("bad columns")
		}
		for _, it := range cl {
			x, pk, uq, after, err := lqColumn(it)
			if err != nil {
				return err
			}
			if t.col(x.Name) != nil || after != "" {
				return fmt.Errorf("column %q repeated", x.Name)
			}
			t.Cols = append(t.Cols, x)
			if pk {
				t.PK = append(t.PK, x.Name)
			}
			if uq {
				t.Uniq = append(t.Uniq, DKey{"", []string{x.Name}})
			}
		}
		d.T[tn] = t
	case "dropTable":
		if err := needT(); err != nil {
			return err
		}
		delete(d.T, tn)
		return lqOnly(m, "tableName")
	case "renameTable":
		o, n := lqStr(m, "oldTableName"), lqStr(m, "newTableName")
		x := d.T[o]
		if x == nil || d.T[n] != nil || n == "" {
			return fmt.Errorf("cannot rename table %q to %q", o, n)
		}
		delete(d.T, o)
		x.Name = n
		d.T[n] = x
		return lqOnly(m, "oldTableName", "newTableName")
	case "setTableRemarks":
		if err := needT(); err != nil {
			return err
		}
		t.Remarks = lqStr(m, "remarks")
		return lqOnly(m, "tableName", "remarks")
	case "addColumn":
		if err := needT(); err != nil {
			return err
		}
		cl, ok := m["columns"].([]interface{})
		if !ok || len(cl) == 0 {
			return fmt.Errorf("bad columns")
		}
		for _, it := range cl {
			x, pk, uq, after, err := lqColumn(it)
			if err != nil {
				return err
			}
			if t.col(x.Name) != nil {
				return fmt.Errorf("column %q exists already", x.Name)
			}
			pos := len(t.Cols)
			if after != "" {
				pos = -1
				for i, o := range t.Cols {
					if o.Name == after {
						pos = i + 1
					}
				}
				if pos < 0 {
					return fmt.Errorf("afterColumn %q does not exist", after)
				}
			}
			cs := append([]*dbCol{}, t.Cols[:pos]...)
			cs = append(cs, x)
			t.Cols = append(cs, t.Cols[pos:]...)
			if pk {
				if len(t.PK) > 0 {
					return fmt.Errorf("second primary key")
				}
				t.PK = []string{x.Name}
			}
			if uq {
				t.Uniq = append(t.Uniq, DKey{"", []string{x.Name}})
			}
		}
	case "dropColumn":
		if _, err := needC(); err != nil {
			return err
		}
		var cs []*dbCol
		for _, x := range t.Cols {
			if x.Name != cn {
				cs = append(cs, x)
			}
		}
		t.Cols = cs
		without := func(l []string) []string {
			if !contains(l, cn) {
				return l
			}
			if env.DropKeys {
				return nil
			}
			var r []string
			for _, x := range l {
				if x != cn {
					r = append(r, x)
				}
			}
			return r
		}
		t.PK = without(t.PK)
		var us []DKey
		for _, u := range t.Uniq {
			if l := without(u.Cols); len(l) > 0 {
				us = append(us, DKey{u.Name, l})
			}
		}
		t.Uniq = us
		return lqOnly(m, "tableName", "columnName")
	case "setColumnRemarks":
		x, err := needC()
		if err != nil {
			return err
		}
		x.Remarks = lqStr(m, "remarks")
		return lqOnly(m, "tableName", "columnName", "remarks", "columnDataType")
	case "modifyDataType":
		x, err := needC()
		if err != nil {
			return err
		}
		x.Type = lqReadType(lqStr(m, "newDataType"))
		if x.Type == "" {
			return fmt.Errorf("no newDataType")
		}
		return lqOnly(m, "tableName", "columnName", "newDataType")
	case "renameColumn":
		cn = lqStr(m, "oldColumnName")
		x, err := needC()
		if err != nil {
			return err
		}
		if err := typeOK(x); err != nil {
			return err
		}
		n := lqStr(m, "newColumnName")
		if n == "" || t.col(n) != nil {
			return fmt.Errorf("cannot rename column %q to %q", cn, n)
		}
		x.Name = n
		if env.RenameNull {
			x.NotNull = false
		}
		for i := range t.PK {
			if t.PK[i] == cn {
				t.PK[i] = n
			}
		}
		for _, u := range t.Uniq {
			for i := range u.Cols {
				if u.Cols[i] == cn {
					u.Cols[i] = n
				}
			}
		}
		return lqOnly(m, "tableName", "oldColumnName", "newColumnName", "columnDataType")
	case "addNotNullConstraint", "dropNotNullConstraint":
		x, err := needC()
		if err != nil {
			return err
		}
		if err := typeOK(x); err != nil {
			return err
		}
		x.NotNull = c.kind == "addNotNullConstraint"
		return lqOnly(m, "tableName", "columnName", "columnDataType", "defaultNullValue")
	case "addAutoIncrement":
		x, err := needC()
		if err != nil {
			return err
		}
		if err := typeOK(x); err != nil {
			return err
		}
		x.AutoInc = true
		return lqOnly(m, "tableName", "columnName", "columnDataType")
	case "addDefaultValue":
		x, err := needC()
		if err != nil {
			return err
		}
		if err := typeOK(x); err != nil {
			return err
		}
		x.DefKind, x.Def, err = lqDefaultOf(m, x.Type)
		if err == nil && x.DefKind == "" {
			err = fmt.Errorf("no default value given")
		}
		return err
	case "dropDefaultValue":
		x, err := needC()
		if err != nil {
			return err
		}
		if x.DefKind == "" {
			return fmt.Errorf("column has no default")
		}
		x.DefKind, x.Def = "", ""
		return typeOK(x)
	case "addPrimaryKey":
		if err := needT(); err != nil {
			return err
		}
		if len(t.PK) > 0 {
			return fmt.Errorf("table %q has a primary key already", tn)
		}
		l := lqList(lqStr(m, "columnNames"))
		if err := t.colsExist(l); err != nil {
			return err
		}
		t.PK = l
		return lqOnly(m, "tableName", "columnNames", "constraintName")
	case "dropPrimaryKey":
		if err := needT(); err != nil {
			return err
		}
		if len(t.PK) == 0 {
			return fmt.Errorf("table %q has no primary key", tn)
		}
		t.PK = nil
		return lqOnly(m, "tableName", "constraintName")
	case "addUniqueConstraint":
		if err := needT(); err != nil {
			return err
		}
		l := lqList(lqStr(m, "columnNames"))
		if err := t.colsExist(l); err != nil {
			return err
		}
		n := lqStr(m, "constraintName")
		for _, u := range t.Uniq {
			if u.Name == n {
				return fmt.Errorf("constraint %q exists already", n)
			}
		}
		t.Uniq = append(t.Uniq, DKey{n, l})
		return lqOnly(m, "tableName", "columnNames", "constraintName")
	case "dropUniqueConstraint":
		if err := needT(); err != nil {
			return err
		}
		n := lqStr(m, "constraintName")
		var us []DKey
		for _, u := range t.Uniq {
			if u.Name != n {
				us = append(us, u)
			}
		}
		if len(us) == len(t.Uniq) {
			return fmt.Errorf("no constraint %q on %q", n, tn)
		}
		t.Uniq = us
		return lqOnly(m, "tableName", "constraintName")
	default:
		return fmt.Errorf("unknown change")
	}
	return nil
}

func (t *dbTable) colsExist(l []string) error {
	seen := map[string]bool{}
	for _, n := range l {
		if t.col(n) == nil {
			return fmt.Errorf("no column %q", n)
		}
		if seen[n] {
			return fmt.Errorf("column %q repeated", n)
		}
		seen[n] = true
	}
	return nil
}

func sortedCopy(l []string) []string {
	r := append([]string{}, l...)
	sort.Strings(r)
	return r
}
func sameSet(a, b []string) bool {
	return strings.Join(sortedCopy(a), "\x00") == strings.Join(sortedCopy(b), "\x00")
}
func sameList(a, b []string) bool { return strings.Join(a, "\x00") == strings.Join(b, "\x00") }

// dbOpt says what is compared.
type dbOpt struct {
	suffix     string
	comments   bool
	inlineUq   bool // an anonymous constraint may double the named one
	order      func(table string) bool
	autoincOld *DB // auto-increment of this database may persist
}

func diffDB(got *DB, want *DB, only func(table string) bool, o dbOpt) []Finding {
	for n := range got.T {
		if want.T[n] == nil {
			return finding("table-left", "table %q should not exist", n)
		}
	}
	for n, w := range want.T {
		g := got.T[n]
		if g == nil {
			return finding("table-missing", "table %q was not created", n)
		}
		if only != nil && !only(n) {
			continue
		}
		if o.order(n) && !sameList(g.colNames(), w.colNames()) {
			return finding("columns", "%s: columns %q, want %q", n, g.colNames(), w.colNames())
		}
		if !sameSet(g.colNames(), w.colNames()) {
			return finding("columns", "%s: columns %q, want %q", n, g.colNames(), w.colNames())
		}
		if !sameSet(g.PK, w.PK) {
			return finding("primary-key", "%s: primary key %q, want %q", n, g.PK, w.PK)
		}
		for _, wc := range w.Cols {
			gc := g.col(wc.Name)
			at := n + "." + wc.Name
			if gc.Type != wc.Type {
				return finding("column-type", "%s: type %q, want %q", at, gc.Type, wc.Type)
			}
			if gc.NotNull != wc.NotNull && !contains(w.PK, wc.Name) {
				return finding("column-notnull", "%s: not null %v, want %v", at, gc.NotNull, wc.NotNull)
			}
			if gc.AutoInc != wc.AutoInc && !(gc.AutoInc && o.autoincOld != nil) {
				return finding("column-autoinc", "%s: auto increment %v, want %v", at, gc.AutoInc, wc.AutoInc)
			}
			if gc.DefKind != wc.DefKind || gc.Def != wc.Def {
				return finding("column-default", "%s (%s): default %s %q, want %s %q", at, wc.Type, gc.DefKind, gc.Def, wc.DefKind, wc.Def)
			}
			if o.comments && gc.Remarks != wc.Remarks {
				return finding("column-comment", "%s: comment %q, want %q", at, gc.Remarks, wc.Remarks)
			}
		}
		if o.comments && g.Remarks != w.Remarks {
			return finding("table-comment", "%s: comment %q, want %q", n, g.Remarks, w.Remarks)
		}
		if f := diffUniq(n, g.Uniq, w.Uniq, o); f != nil {
			return f
		}
	}
	return nil
}

func diffUniq(n string, g, w []DKey, o dbOpt) []Finding {
	if o.inlineUq && len(w) == 1 && len(w[0].Cols) == 1 {
		var r []DKey
		for _, u := range g {
			if u.Name == "" && sameList(u.Cols, w[0].Cols) {
				continue
			}
			r = append(r, u)
		}
		if len(r) == 0 && len(g) > 0 { // only the inline one
			return nil
		}
		g = r
	}
	if len(g) != len(w) {
		return finding("unique", "%s: unique constraints %v, want %v", n, g, w)
	}
	for i := range w {
		if g[i].Name != w[i].Name || !sameSet(g[i].Cols, w[i].Cols) {
			return finding("unique", "%s: unique constraints %v, want %v", n, g, w)
		}
	}
	return nil
}
