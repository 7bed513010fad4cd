package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ---- type checking generated Go code ------------------------------------------------

var stubSrc = map[string]string{
	"github.com/jinzhu/gorm":        "package gorm\nimport \"time\"\ntype Model struct { ID uint; CreatedAt time.Time; UpdatedAt time.Time; DeletedAt *time.Time }\n",
	"github.com/shopspring/decimal": "package decimal\ntype Decimal struct { v int }\ntype NullDecimal struct { Decimal Decimal; Valid bool }\n",
	"gopkg.in/guregu/null.v4":       "package null\ntype String struct{ s string }\ntype Int struct{ i int64 }\ntype Float struct{ f float64 }\ntype Bool struct{ b bool }\ntype Time struct{ t int }\n",
	"time":                          "package time\ntype Time struct{ w uint64 }\ntype Duration int64\n",
}

type stubImporter struct{ fset *token.FileSet }

func (im stubImporter) Import(path string) (*types.Package, error) {
	src, ok := stubSrc[path]
	if !ok {
		return nil, fmt.Errorf("package %s is not known", path)
	}
	f, err := parser.ParseFile(im.fset, path, src, 0)
	if err != nil {
		return nil, err
	}
	conf := types.Config{Importer: im}
	return conf.Check(path, im.fset, []*ast.File{f}, nil)
}

type goField struct {
	name, typ string
	tags      []string
}
type goStruct struct {
	name      string
	embedded  []string
	fields    []goField
	tableName string
	methods   int
}

func parseGorm(src, extra string) (pkg string, sts []goStruct, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "o.go", src, 0)
	if err != nil {
		return "", nil, err
	}
	files := []*ast.File{f}
	if extra != "" {
		g, err := parser.ParseFile(fset, "x.go", "package "+f.Name.Name+"\n"+extra, 0)
		if err != nil {
			return "", nil, err
		}
		files = append(files, g)
	}
	conf := types.Config{Importer: stubImporter{fset}}
	if _, err := conf.Check("p", fset, files, nil); err != nil {
		return "", nil, fmt.Errorf("type check: %v", err)
	}
	show := func(e ast.Expr) string {
		var b bytes.Buffer
		writeExpr(&b, e)
		return b.String()
	}
	idx := map[string]int{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, sp := range d.Specs {
				ts, ok := sp.(*ast.TypeSpec)
				if !ok {
					continue
				}
				st, ok := ts.Type.(*ast.StructType)
				if !ok {
					return "", nil, fmt.Errorf("type %s is not a struct", ts.Name.Name)
				}
				g := goStruct{name: ts.Name.Name}
				for _, fl := range st.Fields.List {
					if len(fl.Names) == 0 {
						g.embedded = append(g.embedded, show(fl.Type))
						continue
					}
					var tags []string
					if fl.Tag != nil {
						raw, err := strconv.Unquote(fl.Tag.Value)
						if err != nil {
							return "", nil, err
						}
						v, ok := reflect.StructTag(raw).Lookup("gorm")
						if !ok {
							return "", nil, fmt.Errorf("bad tag %s", fl.Tag.Value)
						}
						tags = strings.Split(v, ";")
					}
					for _, n := range fl.Names {
						g.fields = append(g.fields, goField{n.Name, show(fl.Type), tags})
					}
				}
				idx[g.name] = len(sts)
				sts = append(sts, g)
			}
		case *ast.FuncDecl:
			if d.Recv == nil || d.Name.Name != "TableName" {
				return "", nil, fmt.Errorf("unexpected function %s", d.Name.Name)
			}
			rt := strings.TrimPrefix(show(d.Recv.List[0].Type), "*")
			if len(d.Body.List) != 1 {
				return "", nil, fmt.Errorf("TableName of %s: unexpected body", rt)
			}
			ret, ok := d.Body.List[0].(*ast.ReturnStmt)
			if !ok || len(ret.Results) != 1 {
				return "", nil, fmt.Errorf("TableName of %s: unexpected body", rt)
			}
			lit, ok := ret.Results[0].(*ast.BasicLit)
			if !ok {
				return "", nil, fmt.Errorf("TableName of %s: not a literal", rt)
			}
			v, _ := strconv.Unquote(lit.Value)
			defer func() {
				if i, ok := idx[rt]; ok {
					sts[i].tableName = v
					sts[i].methods++
				}
			}()
		}
	}
	return f.Name.Name, sts, nil
}

func writeExpr(b *bytes.Buffer, e ast.Expr) {
	switch e := e.(type) {
	case *ast.Ident:
		b.WriteString(e.Name)
	case *ast.SelectorExpr:
		writeExpr(b, e.X)
		b.WriteString("." + e.Sel.Name)
	case *ast.StarExpr:
		b.WriteString("*")
		writeExpr(b, e.X)
	case *ast.ArrayType:
		b.WriteString("[]")
		writeExpr(b, e.Elt)
	case *ast.InterfaceType:
		b.WriteString("interface{}")
	default:
		fmt.Fprintf(b, "?%T", e)
	}
}

func gormType(c *Col) string {
	n := func(nullable, plain string) string {
		if c.NotNull {
			return plain
		}
		return nullable
	}
	switch t := c.Type; {
	case t == "char" || t == "varchar" || isText(t):
		return n("null.String", "string")
	case t == "boolean":
		return n("null.Bool", "bool")
	case t == "int8":
		return n("null.Int", "int8")
	case t == "int16":
		return n("null.Int", "int16")
	case t == "int24" || t == "int32":
		return n("null.Int", "int32")
	case t == "int64":
		return n("null.Int", "int64")
	case t == "decimal":
		return n("decimal.NullDecimal", "decimal.Decimal")
	case t == "float":
		return n("null.Float", "float32")
	case t == "double":
		return n("null.Float", "float64")
	case t == "datetime" || t == "date" || t == "time":
		return n("null.Time", "time.Time")
	case isBlob(t):
		return "[]byte"
	case t == "bit":
		return n("*byte", "byte")
	case t == "enum":
		return "string"
	}
	return "interface{}"
}

var gormInitialisms = []string{"API", "ASCII", "CPU", "CSS", "DNS", "EOF", "GUID", "HTML", "HTTP", "HTTPS", "ID", "IP", "JSON", "LHS", "QPS", "RAM", "RHS", "RPC", "SLA", "SMTP", "SSH", "TLS", "TTL", "UID", "UI", "UUID", "URI", "URL", "UTF8", "VM", "XML", "XSRF", "XSS"}

var gormReplacer = func() *strings.Replacer {
	var l []string
	for _, s := range gormInitialisms {
		l = append(l, s, s[:1]+strings.ToLower(s[1:]))
	}
	return strings.NewReplacer(l...)
}()

var digitBar = regexp.MustCompile(`_([0-9])`)

// gormDBName is the column name that gorm derives from a field name.
func gormDBName(name string) string {
	v := gormReplacer.Replace(name)
	var b strings.Builder
	up := func(c byte) bool { return c >= 'A' && c <= 'Z' }
	var last, cur, next, nextNum bool
	for i := 0; i < len(v)-1; i++ {
		next = up(v[i+1])
		nextNum = v[i+1] >= '0' && v[i+1] <= '9'
		if i > 0 {
			if cur {
				if !(last && (next || nextNum)) && v[i-1] != '_' && v[i+1] != '_' {
					b.WriteByte('_')
				}
				b.WriteByte(v[i])
			} else {
				b.WriteByte(v[i])
				if i == len(v)-2 && next && !nextNum {
					b.WriteByte('_')
				}
			}
		} else {
			cur = true
			b.WriteByte(v[i])
		}
		last, cur = cur, next
	}
	b.WriteByte(v[len(v)-1])
	return strings.ToLower(b.String())
}

func goFieldOK(got, col string) bool {
	if plainSnake.MatchString(col) {
		w := camel(col, true)
		if strings.HasSuffix(w, "Id") {
			w = w[:len(w)-2] + "ID"
		}
		if got == w {
			return true
		}
		// a name of its own where the plain one is taken
		return got != w && strings.HasPrefix(got, w) && squash(got) == squash(w)
	}
	return squash(got) == squash(col) && identRe.MatchString(got)
}

type gormOpt struct {
	digits  bool // report columns whose words start with a digit
	pkg     string
	suffix  string
	ptr     bool
	models  map[string][]string // embed types by name
	names   nameOpt
	imports bool
}

var gormModel = []string{"id", "created_at", "updated_at", "deleted_at"}

func checkGorm(src string, n *Schema, o gormOpt) []Finding {
	var digit []Finding // the known misfit of names with digits, if there is nothing worse
	extra := ""
	for m := range o.models {
		if !strings.Contains(m, ".") {
			extra += "type " + m + " struct {}\n"
		}
	}
	pkg, sts, err := parseGorm(src, extra)
	if err != nil {
		return finding("go-invalid", "generated code is not valid Go: %v\n%s", err, clip(src, 1200))
	}
	if pkg != o.pkg {
		return finding("package", "package is %s, want %s", pkg, o.pkg)
	}
	if len(sts) != len(n.Tables) {
		return finding("struct-count", "%d structs for %d tables", len(sts), len(n.Tables))
	}
	of := map[string]*goStruct{}
	for i := range sts {
		if sts[i].methods != 1 {
			return finding("table-name", "struct %s has %d TableName methods", sts[i].name, sts[i].methods)
		}
		if of[sts[i].tableName] != nil {
			return finding("table-name", "two structs for table %s", sts[i].tableName)
		}
		of[sts[i].tableName] = &sts[i]
	}
	for _, t := range n.Tables {
		g := of[t.Name]
		if g == nil {
			return finding("struct-missing", "no struct whose TableName is %s", t.Name)
		}
		if !classOK(g.name, t, o.names) {
			return finding("struct-name", "struct of table %s is %s", t.Name, g.name)
		}
	}
	fieldOf := func(t *Table, col string, f string) bool {
		return fieldOK(f, t, col, func(f string) bool { return goFieldOK(f, col) })
	}
	// the field a column has in the struct of its table, "" if it is embedded
	actual := func(t *Table, col string) string {
		covered := map[string]bool{}
		for _, e := range of[t.Name].embedded {
			for _, c := range o.models[e] {
				covered[c] = true
			}
		}
		j := 0
		for _, c := range t.Columns {
			if covered[c.Name] {
				continue
			}
			if c.Name == col && j < len(of[t.Name].fields) {
				return of[t.Name].fields[j].name
			}
			j++
		}
		return ""
	}
	for _, t := range n.Tables {
		g := of[t.Name]
		// embedded models
		emb := map[string]bool{}
		covered := map[string]bool{}
		for _, e := range g.embedded {
			cols := o.models[e]
			if cols == nil || emb[e] {
				return finding("embed", "struct %s embeds %s", g.name, e)
			}
			emb[e] = true
			for _, c := range cols {
				if t.Col(c) == nil {
					return finding("embed", "struct %s embeds %s, but table %s has no column %s", g.name, e, t.Name, c)
				}
				if covered[c] {
					return finding("embed", "struct %s: column %s is in two embedded types", g.name, c)
				}
				covered[c] = true
			}
		}
		for m, cols := range o.models {
			if emb[m] || len(cols) == 0 {
				continue
			}
			all := true
			for _, c := range cols {
				all = all && t.Col(c) != nil && !covered[c]
			}
			if all {
				return finding("embed", "struct %s does not embed %s, but table %s has all its columns %v", g.name, m, t.Name, cols)
			}
		}
		var cols []*Col
		for _, c := range t.Columns {
			if !covered[c.Name] {
				cols = append(cols, c)
			}
		}
		if len(g.fields) < len(cols) {
			return finding("field-count", "struct %s has %d fields, table %s has %d columns outside embedded types", g.name, len(g.fields), t.Name, len(cols))
		}
		if emb["gorm.Model"] && len(o.models["gorm.Model"]) == len(gormModel) {
			for _, f := range g.fields {
				if contains([]string{"ID", "CreatedAt", "UpdatedAt", "DeletedAt"}, f.name) {
					return finding("shadow", "struct %s: field %s hides the one of the embedded gorm.Model", g.name, f.name)
				}
			}
		}
		nu := len(t.Uniques())
		for j, c := range cols {
			f := g.fields[j]
			p := g.name + "." + f.name
			if !fieldOf(t, c.Name, f.name) {
				return finding("field-name", "%s: field %d of table %s should be column %s", p, j, t.Name, c.Name)
			}
			if w := gormType(c); f.typ != w {
				return finding("field-type", "%s has type %s, want %s (column type %s, not null %v)", p, f.typ, w, c.Type, c.NotNull)
			}
			var want []string
			var got []string
			named := false
			for _, tg := range f.tags {
				if strings.HasPrefix(tg, "column:") {
					if tg[7:] != c.Name || named {
						return finding("tag-column", "%s: tag %q, column is %s", p, tg, c.Name)
					}
					named = true
					continue
				}
				got = append(got, tg)
			}
			if !named && gormDBName(f.name) != c.Name {
				fd := finding("tag-column", "%s has no column tag, gorm would use column %q instead of %q", p, gormDBName(f.name), c.Name)
				if digitBar.ReplaceAllString(c.Name, "$1") != gormDBName(f.name) {
					return fd
				}
				digit = fd
				digit[0].Sig = "tag-column-digit"
			}
			switch {
			case c.Type == "bit" || c.Type == "char" || c.Type == "varchar":
				if c.Size > 0 {
					want = append(want, fmt.Sprintf("type:%s(%d)", c.Type, c.Size))
				}
			case isDec(c.Type):
				if c.Size > 0 && c.Scale > 0 {
					want = append(want, fmt.Sprintf("type:%s(%d,%d)", c.Type, c.Size, c.Scale))
				}
			}
			if c.PK {
				want = append(want, "primary_key")
			}
			if c.Unique {
				if nu > 1 {
					want = append(want, "unique_index:"+t.Name+o.suffix)
				} else {
					want = append(want, "unique")
				}
			}
			if c.AutoInc {
				want = append(want, "auto_increment")
			} else if c.NotNull {
				want = append(want, "not null")
			}
			for _, ix := range t.Indices {
				for k, ic := range ix.Columns {
					if ic == c.Name {
						if len(ix.Columns) == 1 {
							want = append(want, "index:"+ix.Name)
						} else {
							want = append(want, fmt.Sprintf("index:%s,priority:%d", ix.Name, k+1))
						}
						break
					}
				}
			}
			if c.AutoInc && c.NotNull && contains(got, "not null") {
				want = append(want, "not null") // redundant but right
			}
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, ";") != strings.Join(want, ";") {
				return finding("tags", "%s: tags %q, want %q", p, got, want)
			}
		}
		// associations
		var refs []*Col
		for _, c := range t.Columns {
			if c.Ref != nil {
				if rt := n.Table(c.Ref.Table); rt != nil && rt.Col(c.Ref.Column) != nil {
					refs = append(refs, c)
				}
			}
		}
		as := g.fields[len(cols):]
		if len(as) != len(refs) {
			return finding("assoc-count", "struct %s has %d association fields for %d references", g.name, len(as), len(refs))
		}
		for k, c := range refs {
			a := as[k]
			p := g.name + "." + a.name
			typ := a.typ
			ptr, slice := false, false
			for strings.HasPrefix(typ, "*") || strings.HasPrefix(typ, "[]") {
				if typ[0] == '*' {
					ptr, typ = true, typ[1:]
				} else {
					slice, typ = true, typ[2:]
				}
			}
			if typ != of[c.Ref.Table].name {
				return finding("assoc-type", "%s has type %s, want struct %s of table %s", p, a.typ, of[c.Ref.Table].name, c.Ref.Table)
			}
			if slice != (c.Ref.Relationship == "1:n") || ptr != o.ptr && !(ptr && !slice && recursiveRef(n, t.Name, c.Ref.Table)) {
				return finding("assoc-cardinality", "%s has type %s for relationship %q, pointer option %v", p, a.typ, c.Ref.Relationship, o.ptr)
			}
			var fk, rf string
			for _, tg := range a.tags {
				switch {
				case strings.HasPrefix(tg, "foreignKey:"):
					fk = tg[11:]
				case strings.HasPrefix(tg, "references:"):
					rf = tg[11:]
				default:
					return finding("assoc-tag", "%s: tag %q", p, tg)
				}
			}
			if !fieldOf(t, c.Name, fk) || !fieldOf(n.Table(c.Ref.Table), c.Ref.Column, rf) {
				return finding("assoc-key", "%s: tags %q for column %s -> %s.%s", p, a.tags, c.Name, c.Ref.Table, c.Ref.Column)
			}
			if w := actual(t, c.Name); w != "" && fk != w {
				return finding("assoc-key", "%s: foreignKey %s, but the field of column %s is %s", p, fk, c.Name, w)
			}
			if w := actual(n.Table(c.Ref.Table), c.Ref.Column); w != "" && rf != w {
				return finding("assoc-key", "%s: references %s, but the field of column %s.%s is %s", p, rf, c.Ref.Table, c.Ref.Column, w)
			}
		}
	}
	if o.digits {
		return digit
	}
	return nil
}

// recursiveRef says whether a struct of table t is part of a struct of table from.
func recursiveRef(n *Schema, t, from string) bool {
	seen := map[string]bool{}
	var walk func(x string) bool
	walk = func(x string) bool {
		if x == t {
			return true
		}
		if seen[x] || n.Table(x) == nil {
			return false
		}
		seen[x] = true
		for _, c := range n.Table(x).Columns {
			if c.Ref != nil && c.Ref.Relationship != "1:n" && n.Table(c.Ref.Table) != nil && n.Table(c.Ref.Table).Col(c.Ref.Column) != nil && walk(c.Ref.Table) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

func runGorm(r *Runner, n *Schema, o gormOpt, fresh bool, args ...string) []Finding {
	if fresh {
		r.Recycle()
	}
	out, f := mustRun(r, "o.go", append([]string{"generate", "gorm", "-i", "in.json", "-o", "o.go"}, args...)...)
	if fresh {
		r.Recycle()
	}
	if f != nil {
		return f
	}
	f = checkGorm(out, n, o)
	if f != nil {
		f[0].Msg = fmt.Sprintf("generate gorm %v: %s", args, f[0].Msg)
	}
	return f
}

func classNames(use bool) nameOpt { return nameOpt{useClass: use} }

func evalC16(r *Runner, c *Case) []Finding {
	r.PutSchema("in.json", c.S)
	n := Norm(c.S)
	def := map[string][]string{"gorm.Model": gormModel}
	known := runGorm(r, n, gormOpt{pkg: "main", models: def, names: nameOpt{useClass: true}, digits: true}, false)
	if known != nil && known[0].Sig != "tag-column-digit" {
		return known
	}
	if c.Heavy {
		o := gormOpt{pkg: "model", suffix: "_uq", ptr: true, models: def, names: nameOpt{useClass: true, prefix: map[string]string{"alpha": "A", "beta": "Beta"}}}
		if f := runGorm(r, n, o, false, "-k", "model", "-u", "_uq", "-a", "-p", "alpha:A,beta:Beta"); f != nil {
			return f
		}
		// output directory
		res := r.Run("generate", "gorm", "-i", "in.json", "-o", "d")
		if b, ok := r.Get("d/output.go"); !res.OK() || !ok {
			return finding("directory-output", "generate gorm -o d: exit %d %s", res.Exit, clip(res.Out, 300))
		} else if string(b) != strings.Replace(string(b), "\x00", "", -1) || len(b) == 0 {
			return finding("directory-output", "empty output")
		}
	}
	return known
}

// ---- C17 ------------------------------------------------------------------------

func seedEmbed() *Schema {
	ts := func(n string, nn bool) *Col { return &Col{Name: n, Type: "datetime", NotNull: nn} }
	return &Schema{Version: "1", Tables: []*Table{
		{Name: "book", Columns: []*Col{{Name: "id", Type: "int64", PK: true, AutoInc: true, NotNull: true}, {Name: "title", Type: "varchar", Size: 50}, {Name: "author_id", Type: "int64", Ref: &Ref{"author", "id", "n:1"}}, ts("created_at", true), ts("updated_at", true), ts("deleted_at", false)}},
		{Name: "author", Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "name", Type: "varchar", Size: 50, Unique: true}, ts("created_at", true), ts("updated_at", true), {Name: "book_id", Type: "int64", Ref: &Ref{"book", "id", "1:n"}}}},
		{Name: "model", Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "name", Type: "varchar", Size: 5}}},
	}}
}

func alphaEmbed() *Alphabet {
	return &Alphabet{
		Types:     []string{"varchar", "datetime", "int64", "decimal", "json"},
		Flags:     "npu",
		Refs:      []Ref{{}, {"book", "id", "n:1"}, {"book", "title", "1:1"}, {"author", "id", "1:n"}, {"author", "name", "n:1"}, {"model", "id", "n:1"}, {"=", "*", "n:1"}, {"nowhere", "id", "n:1"}, {"author", "nocol", "n:1"}, {"model", "id", ""}, {"AUTHOR", "id", "n:1"}, {"author", "ID", "n:1"}},
		ColNames:  []string{"id", "created_at", "updated_at", "deleted_at", "name", "title", "book", "author", "model", "table_name", "book_by_author", "CreatedAt"},
		TblNames:  []string{"books", "table_name"},
		Classes:   []string{"MyClass"},
		Structure: true,
	}
}

var embedOpts = []struct {
	arg  string
	name string
	cols []string
}{
	{"IdName:id,name", "IdName", []string{"id", "name"}},
	{"Times:created_at,updated_at", "Times", []string{"created_at", "updated_at"}},
	{"Zed:title", "Zed", []string{"title"}},
	{"Absent:id,nothing", "Absent", []string{"id", "nothing"}},
	{"gorm.Model:", "gorm.Model", []string{}},
	{"gorm.Model:id,created_at,updated_at", "gorm.Model", []string{"id", "created_at", "updated_at"}},
}

func evalC17(r *Runner, c *Case) []Finding {
	r.PutSchema("in.json", c.S)
	n := Norm(c.S)
	def := map[string][]string{"gorm.Model": gormModel}
	if f := runGorm(r, n, gormOpt{pkg: "main", models: def, names: nameOpt{useClass: true}}, false); f != nil {
		return f
	}
	if f := runGorm(r, n, gormOpt{pkg: "main", ptr: true, models: def, names: nameOpt{useClass: true}}, false, "-a"); f != nil {
		return f
	}
	if !c.Heavy {
		return nil
	}
	for _, e := range embedOpts {
		m := map[string][]string{"gorm.Model": gormModel}
		m[e.name] = e.cols
		if f := runGorm(r, n, gormOpt{pkg: "main", models: m, names: nameOpt{useClass: true}}, true, "-e", e.arg); f != nil {
			return f
		}
	}
	return nil
}

// goNames: what the property assumes about names.
func goAble(s *Schema) bool { return genAble(s) }

func exploreC17(x *Ctx, emit func(*Case) bool) {
	x.Explore([]Seed{{"embed", seedEmbed()}, {"refs", seedRefs()}, {"kin", seedKin()}}, []*Alphabet{alphaEmbed()}, goAble, heavyFirst(emit, 1))
	c := alphaEmbed()
	c.Types, c.Flags = []string{"datetime"}, "p"
	c.ColNames = []string{"id", "created_at", "deleted_at", "table_name", "book", "model"}
	c.Refs = []Ref{{}, {"book", "id", "n:1"}, {"author", "id", "1:n"}, {"author", "name", "n:1"}, {"=", "*", "n:1"}, {"model", "id", "1:1"}}
	lv := []*Alphabet{c, c}
	if x.Thorough {
		lv = []*Alphabet{alphaEmbed(), alphaEmbed()}
		b := alphaEmbed()
		b.Types, b.Flags = []string{"datetime"}, "p"
		b.ColNames = []string{"id", "created_at", "table_name", "book"}
		b.Refs = b.Refs[:4]
		b.TblNames, b.Classes = nil, nil
		lv = append(lv, b)
	}
	x.Explore([]Seed{{"embed", seedEmbed()}}, lv, goAble, heavyFirst(emit, 0))
	x.clashCases(goAble, emit)
	x.Explore([]Seed{{"refs", seedRefs()}, {"groups", seedGroups()}}, lv[:2], goAble, heavyFirst(emit, 0))
}

func init() {
	register("C16", func(x *Ctx) {
		x.Pool(evalC16, func(emit func(*Case) bool) { x.textCases(goAble, emit) })
	})
	register("C17", func(x *Ctx) {
		x.Pool(evalC17, func(emit func(*Case) bool) { exploreC17(x, emit) })
	})
}
