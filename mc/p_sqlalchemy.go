package main

import (
	"fmt"
	"strings"
)

var saTypes = map[string]string{
	"char": "String", "varchar": "String", "text8": "String", "text16": "String", "text24": "String", "text32": "String",
	"boolean": "Boolean", "int8": "Integer", "int16": "Integer", "int24": "Integer", "int32": "Integer", "int64": "BigInteger",
	"decimal": "Numeric", "float": "Float", "double": "Float", "datetime": "DateTime", "date": "Date", "time": "Time",
	"blob8": "LargeBinary", "blob16": "LargeBinary", "blob24": "LargeBinary", "blob32": "LargeBinary",
}

type saOpt struct {
	utc    bool
	suffix string
	names  nameOpt
}

func checkSaClass(c *saClass, t *Table, o saOpt) []Finding {
	if !classOK(c.Name, t, o.names) {
		return finding("class-name", "class %s for table %s (class name %q, group %q)", c.Name, t.Name, t.ClassName, t.Group)
	}
	if len(c.Cols) != len(t.Columns) {
		return finding("attribute-count", "class %s has %d attributes for %d columns", c.Name, len(c.Cols), len(t.Columns))
	}
	nu := len(t.Uniques())
	for k, col := range t.Columns {
		a := c.Cols[k]
		w := c.Name + "." + a.Attr
		if a.Name != col.Name {
			return finding("column-name", "%s is column %q, want %q", w, a.Name, col.Name)
		}
		if strings.ToLower(a.Attr) != a.Attr || !fieldOK(a.Attr, t, col.Name, func(f string) bool { return squash(f) == squash(col.Name) }) {
			return finding("attribute-name", "%s for column %q", w, col.Name)
		}
		typ := saTypes[col.Type]
		if col.Type == "bit" && col.Size == 1 {
			typ = "Boolean"
		}
		args := map[string]interface{}{}
		switch col.Type {
		case "char", "varchar":
			if col.Size > 0 {
				args["length"] = col.Size
			}
		case "decimal", "float", "double":
			if col.Size > 0 {
				args["precision"] = col.Size
			}
			if col.Scale > 0 && col.Type == "decimal" {
				args["scale"] = col.Scale
			}
		}
		def, upd := "", ""
		if col.Type == "datetime" {
			now := "now"
			if o.utc {
				now = "utcnow"
			}
			switch col.Name {
			case "created_at":
				def = now
			case "updated_at":
				def, upd = now, now
			default:
				if o.utc {
					typ = "TZDateTime"
				}
			}
		}
		if a.Type != typ || len(a.Args) != len(args) {
			return finding("type", "%s is %s%v, want %s%v (%s)", w, a.Type, a.Args, typ, args, colText(col))
		}
		for k, v := range args {
			if fmt.Sprint(a.Args[k]) != fmt.Sprint(v) {
				return finding("type", "%s is %s%v, want %s%v (%s)", w, a.Type, a.Args, typ, args, colText(col))
			}
		}
		if a.PK != col.PK || a.Unique != col.Unique || a.AutoInc != col.AutoInc {
			return finding("flags", "%s has primary_key=%v unique=%v autoincrement=%v, column %s", w, a.PK, a.Unique, a.AutoInc, colText(col))
		}
		if want := !col.NotNull && !col.PK; a.Nullable != want {
			return finding("nullable", "%s has nullable=%v, want %v (%s)", w, a.Nullable, want, colText(col))
		}
		if a.Default != def || a.OnUpdate != upd {
			return finding("time-default", "%s has default %q onupdate %q, want %q and %q", w, a.Default, a.OnUpdate, def, upd)
		}
	}
	if nu < 2 {
		if len(c.Uniq) > 0 {
			return finding("unique-constraint", "class %s has a unique constraint for %d unique columns", c.Name, nu)
		}
		return nil
	}
	if len(c.Uniq) != 1 || fmt.Sprint(c.Uniq[0][1]) != t.Name+o.suffix {
		return finding("unique-constraint", "class %s has unique constraints %v, want one named %s", c.Name, c.Uniq, t.Name+o.suffix)
	}
	cs, _ := c.Uniq[0][0].([]interface{})
	k := 0
	for i, col := range t.Columns {
		if col.Unique {
			if k >= len(cs) || fmt.Sprint(cs[k]) != col.Name && fmt.Sprint(cs[k]) != c.Cols[i].Attr {
				return finding("unique-columns", "class %s has unique constraint %v for %v", c.Name, c.Uniq, names(t.Uniques()))
			}
			k++
		}
	}
	if k != len(cs) {
		return finding("unique-columns", "class %s has unique constraint %v for %v", c.Name, c.Uniq, names(t.Uniques()))
	}
	return nil
}

func (r *Runner) runSa(n *Schema, single bool, o saOpt, args ...string) []Finding {
	r.Clear("d")
	out := "d"
	if single {
		out = "d/o.py"
	}
	a := append([]string{"generate", "sqlalchemy", "-i", "in.json", "-o", out}, args...)
	res := r.Run(a...)
	if !res.OK() {
		return finding("command-failed", "%s: exit %d\n%s", cmdLine(a), res.Exit, clip(res.Out, 800))
	}
	tree := r.subTree("d")
	fs := func() []Finding {
		if single {
			src, ok := tree["o.py"]
			if !ok || len(tree) != 1 {
				return finding("files", "output files %v", treeFiles(tree))
			}
			m := r.py(src)
			if m.Err != "" {
				return finding("load", "the module does not load: %s\n%s", m.Err, clip(src, 2000))
			}
			if len(m.Classes) != len(n.Tables) {
				return finding("class-count", "%d classes for %d tables", len(m.Classes), len(n.Tables))
			}
			used := map[string]bool{}
			for i := range m.Classes {
				c := &m.Classes[i]
				t := n.Table(c.Table)
				if t == nil || used[c.Table] {
					return finding("table-name", "class %s has table name %q", c.Name, c.Table)
				}
				used[c.Table] = true
				if f := checkSaClass(c, t, o); f != nil {
					return f
				}
			}
			return nil
		}
		if len(tree) != len(n.Tables) {
			return finding("files", "output files %v for %d tables", treeFiles(tree), len(n.Tables))
		}
		for _, t := range n.Tables {
			src, ok := tree[t.Name+".py"]
			if !ok {
				return finding("files", "no file for table %s: %v", t.Name, treeFiles(tree))
			}
			m := r.py(src)
			if m.Err != "" {
				return finding("load", "%s.py does not load: %s\n%s", t.Name, m.Err, clip(src, 2000))
			}
			if len(m.Classes) != 1 || m.Classes[0].Table != t.Name {
				return finding("table-name", "%s.py declares %v", t.Name, m.Classes)
			}
			if f := checkSaClass(&m.Classes[0], t, o); f != nil {
				return f
			}
		}
		return nil
	}()
	if fs != nil {
		fs[0].Msg = fmt.Sprintf("%s: %s", cmdLine(a), fs[0].Msg)
	}
	return fs
}

func evalC22(r *Runner, c *Case) []Finding {
	r.PutSchema("in.json", c.S)
	n := Norm(c.S)
	nm := nameOpt{useClass: true}
	if f := r.runSa(n, true, saOpt{names: nm}); f != nil {
		return f
	}
	if f := r.runSa(n, false, saOpt{utc: true, suffix: "_uq", names: nm}, "-t", "-u", "_uq"); f != nil {
		return f
	}
	if !c.Heavy {
		return nil
	}
	if f := r.runSa(n, true, saOpt{utc: true, suffix: "_uq", names: nameOpt{useClass: true, prefix: map[string]string{"alpha": "A", "": "N"}}}, "-t", "-u", "_uq", "-p", "alpha:A,:N"); f != nil {
		return f
	}
	if f := r.runSa(n, false, saOpt{names: nameOpt{useClass: true, prefix: map[string]string{"*": "Pre"}}}, "-p", "Pre"); f != nil {
		return f
	}
	if rm := []string{"tbl_", "t"}; removable(n, rm) {
		if f := r.runSa(n, true, saOpt{names: nameOpt{useClass: true, remove: rm}}, "-r", "tbl_,t"); f != nil {
			return f
		}
	}
	for _, g := range groupsOf(n) {
		if !strings.Contains(g, ",") && g != "" {
			if f := r.runSa(Filter(n, []string{g}), true, saOpt{names: nm}, "-g", g); f != nil {
				return f
			}
			if f := r.runSa(Filter(n, []string{g}), false, saOpt{utc: true, names: nm}, "-t", "-g", g); f != nil {
				return f
			}
		}
	}
	return nil
}

// Python keywords and names with a meaning in declarative classes.
var pyNames = []string{"and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif", "else", "except", "finally", "for", "from", "global", "if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return", "try", "while", "with", "yield", "None", "True", "False", "Class", "metadata", "datetime", "timezone", "column", "string", "base", "created_at", "updated_at", "Created_At", "match", "type", "id_", "self"}

func seedPy() *Schema {
	return &Schema{Version: "1", Tables: []*Table{
		{Name: "event", Group: "alpha", Columns: []*Col{{Name: "id", Type: "int64", PK: true, AutoInc: true, NotNull: true}, {Name: "at", Type: "datetime", NotNull: true, Unique: true}, {Name: "created_at", Type: "datetime", NotNull: true}, {Name: "updated_at", Type: "datetime", Unique: true}}},
		{Name: "plain", Columns: []*Col{{Name: "code", Type: "varchar", Size: 9, PK: true}, {Name: "bit1", Type: "bit", Size: 1}, {Name: "f", Type: "float", Size: 9}, {Name: "on_day", Type: "date"}}},
	}}
}

func pyAble(s *Schema) bool {
	if !genAble(s) {
		return false
	}
	for _, t := range s.Tables {
		switch squash(t.Name) {
		case "base", "none", "true", "false", "column", "date", "time", "float":
			return false
		}
	}
	return true
}

func init() {
	register("C22", func(x *Ctx) {
		x.Pool(evalC22, func(emit func(*Case) bool) {
			a := alphaFull()
			a.ColNames = append(a.ColNames, pyNames...)
			x.Explore([]Seed{{"py", seedPy()}}, []*Alphabet{a}, pyAble, heavyFirst(emit, 1))
			b := &Alphabet{Types: []string{"datetime", "varchar", "float", "decimal", "enum", "TIMESTAMP"}, Flags: "npua", Sizes: [][2]int{{0, 0}, {1, 0}, {8, 3}}, ColNames: []string{"created_at", "updated_at", "datetime", "class", "CamelCase"}, Groups: []string{"alpha", ""}, Structure: true}
			x.Explore([]Seed{{"py", seedPy()}}, x.levels(b), pyAble, heavyFirst(emit, 1))
			x.textCases(pyAble, emit)
		})
	})
}
