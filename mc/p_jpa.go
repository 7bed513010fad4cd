package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// ---- Kotlin (JPA) -----------------------------------------------------------------

type ktAnno struct {
	name string
	args string // tokens joined by a space, "" = none
	has  bool
}
type ktProp struct {
	annos    []ktAnno
	override bool
	name     string
	typ      string
	def      string
}
type ktClass struct {
	annos []ktAnno
	data  bool
	name  string
	props []ktProp
	super string
	iface bool
}
type ktFile struct {
	pkg     string
	imports []string
	classes []ktClass
}

func parseKt(src string) (f *ktFile, err error) {
	defer catchScan(&err)
	s, err := scanText(src, ".", "//")
	if err != nil {
		return nil, err
	}
	f = &ktFile{}
	balanced := func() string {
		// s is behind "("
		var b []string
		for d := 1; ; {
			t := s.next()
			switch t {
			case "":
				panic(scanErr("unclosed ("))
			case "(", "[":
				d++
			case ")", "]":
				d--
			case "\n":
				continue
			}
			if d == 0 {
				return strings.Join(b, " ")
			}
			b = append(b, t)
		}
	}
	annos := func() (as []ktAnno) {
		for s.nl(); s.raw() == "@"; s.nl() {
			s.next()
			a := ktAnno{name: s.word()}
			if s.raw() == "(" {
				s.next()
				a.args, a.has = balanced(), true
			}
			as = append(as, a)
		}
		return
	}
	typ := func() string {
		s.nl()
		t := s.word()
		if s.raw() == "<" {
			t += s.next()
			for {
				t += s.word()
				if s.raw() == "?" {
					t += s.next()
				}
				if s.raw() == "," {
					t += s.next()
					continue
				}
				break
			}
			s.want(">")
			t += ">"
		}
		if s.raw() == "?" {
			t += s.next()
		}
		return t
	}
	s.nl()
	if s.raw() == "package" {
		s.next()
		f.pkg = s.word()
		if s.raw() != "\n" {
			panic(scanErr("text behind the package name"))
		}
	}
	for s.nl(); s.raw() == "import"; s.nl() {
		s.next()
		w := s.word()
		if s.raw() == "*" {
			w += s.next()
		}
		if s.raw() != "\n" {
			panic(scanErr("text behind an import"))
		}
		if strings.HasPrefix(w, ".") || strings.HasSuffix(w, ".") || strings.Contains(w, "..") {
			panic(scanErr("bad import " + w))
		}
		f.imports = append(f.imports, w)
	}
	for s.nl(); s.i < len(s.t); s.nl() {
		c := ktClass{annos: annos()}
		switch k := s.word(); k {
		case "data":
			c.data = true
			s.want("class")
		case "class":
		case "interface":
			c.iface = true
		default:
			panic(scanErr("declaration expected, " + k + " found"))
		}
		s.nl()
		c.name = s.word()
		s.nl()
		if s.raw() == "(" {
			s.next()
			for s.nl(); s.raw() != ")"; s.nl() {
				p := ktProp{annos: annos()}
				if s.raw() == "override" {
					s.next()
					p.override = true
				}
				if w := s.next(); w != "var" && w != "val" {
					panic(scanErr("property expected, " + w + " found"))
				}
				p.name = s.word()
				s.want(":")
				p.typ = typ()
				s.nl()
				if s.raw() == "=" {
					s.next()
					s.nl()
					for s.nl(); s.raw() != "," && s.raw() != ")"; s.nl() {
						t := s.next()
						if t == "" {
							panic(scanErr("unclosed class"))
						}
						p.def += t
						if t == "(" {
							p.def += balanced() + ")"
						}
					}
					if p.def == "" {
						panic(scanErr("empty default value"))
					}
				}
				c.props = append(c.props, p)
				s.nl()
				if s.raw() == "," {
					s.next()
					continue
				}
				if s.raw() != ")" {
					panic(scanErr(fmt.Sprintf("\",\" or \")\" expected, %q found", s.raw())))
				}
			}
			s.next()
		}
		s.nl()
		if s.raw() == ":" {
			s.next()
			c.super = typ()
		}
		f.classes = append(f.classes, c)
	}
	return f, nil
}

var ktTypes = map[string][3]string{ // type, default if not null, import
	"char": {"String", `"`, ""}, "varchar": {"String", `"`, ""},
	"text8": {"String", `"`, ""}, "text16": {"String", `"`, ""}, "text24": {"String", `"`, ""}, "text32": {"String", `"`, ""},
	"boolean": {"Boolean", "false", ""},
	"int8":    {"Int", "0", ""}, "int16": {"Int", "0", ""}, "int24": {"Int", "0", ""}, "int32": {"Int", "0", ""},
	"int64":    {"Long", "0L", ""},
	"decimal":  {"BigDecimal", "BigDecimal.ZERO", "java.math.BigDecimal"},
	"float":    {"Float", "0.0F", ""},
	"double":   {"Double", "0.0", ""},
	"datetime": {"Timestamp", "Timestamp(System.currentTimeMillis ( ))", "java.sql.Timestamp"},
	"date":     {"LocalDate", "LocalDate.now()", "java.time.LocalDate"},
	"time":     {"LocalTime", "LocalTime.now()", "java.time.LocalTime"},
	"blob8":    {"Blob", "", "java.sql.Blob"}, "blob16": {"Blob", "", "java.sql.Blob"}, "blob24": {"Blob", "", "java.sql.Blob"}, "blob32": {"Blob", "", "java.sql.Blob"},
}

func ktType(c *Col) (typ, def, imp string) {
	typ = "Any"
	if m, ok := ktTypes[c.Type]; ok {
		typ, imp = m[0], m[2]
		if c.NotNull {
			def = m[1]
		}
	}
	if !c.NotNull {
		typ += "?"
	}
	return
}

type ktOpt struct {
	pkg, repos, relation, idEntity, suffix string
	annos                                  map[string][]string // by group; "*" = all
	names                                  nameOpt
	norel                                  bool // relations are not judged
}

func nospace(s string) string { return strings.ReplaceAll(s, " ", "") }

// ktArgs splits "a = 1 , b = "x" " at the top level.
func ktArgs(s string) map[string]string {
	m := map[string]string{}
	d := 0
	cur := ""
	put := func() {
		if i := strings.Index(cur, "="); i >= 0 {
			m[strings.TrimSpace(cur[:i])] = strings.TrimSpace(cur[i+1:])
		} else if strings.TrimSpace(cur) != "" {
			m[strings.TrimSpace(cur)] = ""
		}
		cur = ""
	}
	for _, t := range strings.Split(s, " ") {
		switch t {
		case "(", "[":
			d++
		case ")", "]":
			d--
		case ",":
			if d == 0 {
				put()
				continue
			}
		}
		cur += t + " "
	}
	put()
	return m
}

func checkKt(tree map[string]string, n *Schema, o ktOpt) []Finding {
	dir := strings.ReplaceAll(o.pkg, ".", "/")
	rdir := strings.ReplaceAll(o.repos, ".", "/")
	type loaded struct {
		path string
		f    *ktFile
		used bool
	}
	var files []*loaded
	var ps []string
	for p := range tree {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		if strings.HasSuffix(p, "/") {
			continue
		}
		f, err := parseKt(tree[p])
		if err != nil {
			return finding("syntax", "%s is not Kotlin: %v\n%s", p, err, clip(tree[p], 1500))
		}
		files = append(files, &loaded{path: p, f: f})
	}
	inDir := func(d string) []*loaded {
		var r []*loaded
		for _, l := range files {
			if pd := filepath.Dir(l.path); (pd == d || d == "" && pd == ".") && !l.used {
				r = append(r, l)
			}
		}
		return r
	}
	of := map[string]*ktClass{}
	// entity files
	for _, t := range n.Tables {
		var hit *loaded
		for _, l := range inDir(dir) {
			b := strings.TrimSuffix(filepath.Base(l.path), ".kt")
			if b != filepath.Base(l.path) && classOK(b, t, o.names) && len(l.f.classes) > 0 && l.f.classes[0].name == b && !l.f.classes[0].iface {
				if hit != nil {
					return finding("entity-files", "%s and %s are both the class of table %s", hit.path, l.path, t.Name)
				}
				hit = l
			}
		}
		if hit == nil {
			return finding("entity-missing", "no file for the class of table %s in %q: %v", t.Name, dir, ps)
		}
		hit.used = true
		of[t.Name] = &hit.f.classes[0]
		for i := range hit.f.classes {
			if nm := hit.f.classes[i].name; i > 0 && nm != hit.f.classes[0].name+"PK" {
				return finding("extra-class", "%s declares %s", hit.path, nm)
			}
		}
		if hit.f.pkg != o.pkg {
			return finding("package", "%s is in package %q, want %q", hit.path, hit.f.pkg, o.pkg)
		}
	}
	for _, t := range n.Tables {
		var l *loaded
		for _, x := range files {
			if len(x.f.classes) > 0 && &x.f.classes[0] == of[t.Name] {
				l = x
			}
		}
		if f := checkKtEntity(l.path, l.f, t, n, of, o); f != nil {
			return f
		}
	}
	// repositories
	if o.repos != "" {
		for _, t := range n.Tables {
			cn := of[t.Name].name
			var hit *loaded
			for _, l := range inDir(rdir) {
				if filepath.Base(l.path) == cn+"Repository.kt" {
					hit = l
				}
			}
			if pks := t.PKs(); len(pks) == 0 {
				if hit != nil {
					return finding("repository-extra", "table %s has no key but a repository", t.Name)
				}
				continue
			} else if hit == nil {
				return finding("repository-missing", "no repository for table %s in %q: %v", t.Name, rdir, ps)
			}
			hit.used = true
			f := hit.f
			if f.pkg != o.repos {
				return finding("repository-package", "%s is in package %q", hit.path, f.pkg)
			}
			if len(f.classes) != 1 || !f.classes[0].iface || f.classes[0].name != cn+"Repository" {
				return finding("repository-class", "%s does not declare interface %sRepository only", hit.path, cn)
			}
			key, _, imp := ktType(t.PKs()[0])
			if len(t.PKs()) > 1 {
				key, imp = cn+"PK", ""
			}
			if w := "JpaRepository<" + cn + "," + key + ">"; f.classes[0].super != w {
				return finding("repository-type", "%sRepository extends %s, want %s", cn, f.classes[0].super, w)
			}
			want := []string{"org.springframework.data.jpa.repository.JpaRepository", "org.springframework.stereotype.Repository"}
			if imp != "" {
				want = append(want, imp)
			}
			have := strings.Join(f.imports, " ") + " "
			for _, w := range want {
				if !strings.Contains(have, w+" ") {
					return finding("repository-import", "%s does not import %s: %v", hit.path, w, f.imports)
				}
			}
			if o.pkg != o.repos && o.pkg != "" && !strings.Contains(have, o.pkg+".* ") && !strings.Contains(have, o.pkg+"."+cn+" ") {
				return finding("repository-import", "%s does not import the entity: %v", hit.path, f.imports)
			}
			var rep bool
			for _, a := range f.classes[0].annos {
				rep = rep || a.name == "Repository"
			}
			if !rep {
				return finding("repository-annotation", "%s has no @Repository", hit.path)
			}
		}
	}
	for _, l := range files {
		if !l.used {
			return finding("extra-file", "unexpected file %s", l.path)
		}
	}
	return nil
}

func checkKtEntity(path string, f *ktFile, t *Table, n *Schema, of map[string]*ktClass, o ktOpt) []Finding {
	c := &f.classes[0]
	if len(c.props) != len(t.Columns) {
		return finding("property-count", "%s has %d properties for %d columns", c.name, len(c.props), len(t.Columns))
	}
	seen := map[string]bool{}
	nameOf := map[string]*ktProp{}
	for k, col := range t.Columns {
		p := &c.props[k]
		if !fieldOK(p.name, t, col.Name, func(f string) bool { return camelOK(f, col.Name, false) }) || seen[p.name] {
			return finding("property-name", "%s: property %d is %s for column %s", c.name, k, p.name, col.Name)
		}
		seen[p.name] = true
		nameOf[col.Name] = p
	}
	pks := t.PKs()
	overridden := map[string]bool{}
	imports := map[string]bool{"javax.persistence.*": true}
	if len(pks) > 1 {
		imports["java.io.Serializable"] = true
	}
	for k, col := range t.Columns {
		p := c.props[k]
		w := c.name + "." + p.name
		typ, def, imp := ktType(col)
		if imp != "" {
			imports[imp] = true
		}
		if p.typ != typ {
			return finding("property-type", "%s is %s, want %s (column type %s)", w, p.typ, typ, col.Type)
		}
		if nospace(p.def) != nospace(def) {
			return finding("property-default", "%s has default %q, want %q", w, p.def, def)
		}
		isId := o.idEntity != "" && len(pks) == 1 && pks[0] == col && p.name == "id"
		if p.override != isId {
			return finding("property-override", "%s: override=%v, want %v", w, p.override, isId)
		}
		got := map[string]string{}
		for _, a := range p.annos {
			if _, ok := got[a.name]; ok {
				return finding("annotation-twice", "%s has two annotations @%s", w, a.name)
			}
			got[a.name] = a.args
		}
		want := map[string]string{}
		if col.PK {
			want["Id"] = ""
		}
		if col.AutoInc {
			want["GeneratedValue"] = "strategy = GenerationType.AUTO"
		}
		if isText(col.Type) {
			want["Lob"] = ""
		}
		cols := map[string]string{}
		if col.NotNull {
			cols["nullable"] = "false"
		}
		if (col.Type == "char" || col.Type == "varchar" || isText(col.Type)) && col.Size > 0 {
			cols["length"] = fmt.Sprint(col.Size)
		}
		if isDec(col.Type) && col.Size > 0 {
			cols["precision"] = fmt.Sprint(col.Size)
		}
		if isDec(col.Type) && col.Scale > 0 {
			cols["scale"] = fmt.Sprint(col.Scale)
		}
		if col.Type == "datetime" && p.name == "createdAt" {
			want["CreationTimestamp"] = ""
			cols["updatable"] = "false"
			imports["org.hibernate.annotations.CreationTimestamp"] = true
		}
		if col.Type == "datetime" && p.name == "updatedAt" {
			want["UpdateTimestamp"] = ""
			imports["org.hibernate.annotations.UpdateTimestamp"] = true
		}
		gotCols := ktArgs(got["Column"])
		if nm, ok := gotCols["name"]; ok {
			overridden[col.Name] = true
			if nm != `"`+col.Name {
				return finding("column-name", "%s: @Column name %s for column %s", w, nm, col.Name)
			}
			delete(gotCols, "name")
		} else if ktSnake(p.name) != col.Name {
			return finding("column-name", "%s: no @Column name for column %s", w, col.Name)
		}
		if sameMaps(gotCols, cols) != "" {
			return finding("column-attributes", "%s: @Column(%v), want %v (column %s)", w, gotCols, cols, colText(col))
		}
		delete(got, "Column")
		if o.relation == "VRelation" {
			if rt := refTable(n, col); rt != nil {
				if !o.norel {
					a := ktArgs(got["VRelation"])
					if a["cls"] != `"`+of[rt.Name].name {
						return finding("relation-class", "%s: @VRelation(%s) for a reference to table %s (class %s)", w, got["VRelation"], rt.Name, of[rt.Name].name)
					}
					ok := camelOK(strings.TrimPrefix(a["field"], `"`), col.Ref.Column, false)
					for j, rc := range rt.Columns {
						if rc.Name == col.Ref.Column && j < len(of[rt.Name].props) {
							ok = strings.TrimPrefix(a["field"], `"`) == of[rt.Name].props[j].name
						}
					}
					if !ok || len(a) != 2 {
						return finding("relation-field", "%s: @VRelation(%s) for a reference to column %s", w, got["VRelation"], col.Ref.Column)
					}
				}
				delete(got, "VRelation")
			}
		}
		if f := sameMaps(got, want); f != "" {
			return finding("annotations", "%s (column %s): annotations %v, want %v", w, colText(col), got, want)
		}
	}
	// class annotations
	var table, idClass *ktAnno
	var rest []string
	ent := 0
	for i := range c.annos {
		switch a := &c.annos[i]; a.name {
		case "Entity":
			ent++
		case "Table":
			if table != nil {
				return finding("class-annotations", "%s has two @Table", c.name)
			}
			table = a
		case "IdClass":
			if idClass != nil {
				return finding("class-annotations", "%s has two @IdClass", c.name)
			}
			idClass = a
		default:
			x := "@" + a.name
			if a.has {
				x += "(" + a.args + ")"
			}
			rest = append(rest, x)
		}
	}
	if ent != 1 || table == nil {
		return finding("class-annotations", "%s: %d @Entity, table %v", c.name, ent, table)
	}
	var wantAnno []string
	if a, ok := o.annos["*"]; ok {
		wantAnno = a
	} else {
		wantAnno = o.annos[t.Group]
	}
	if strings.Join(rest, " ") != strings.Join(wantAnno, " ") {
		return finding("custom-annotations", "%s (group %q) has annotations %v, want %v", c.name, t.Group, rest, wantAnno)
	}
	ta := ktArgs(table.args)
	if ta["name"] != `"`+t.Name {
		return finding("table-name", "%s: @Table(%s) for table %s", c.name, table.args, t.Name)
	}
	uq := t.Uniques()
	uc, hasUC := ta["uniqueConstraints"]
	if hasUC != (len(uq) > 0) || len(ta) > 2 || len(ta) == 2 && !hasUC {
		return finding("unique-constraint", "%s: @Table(%s) with %d unique columns", c.name, table.args, len(uq))
	}
	if hasUC {
		uc = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(uc, "["), "]"))
		const pre = "UniqueConstraint ("
		if !strings.HasPrefix(uc, pre) || strings.Count(uc, "UniqueConstraint") != 1 {
			return finding("unique-constraint", "%s: uniqueConstraints = %s", c.name, uc)
		}
		ua := ktArgs(strings.TrimSuffix(strings.TrimSpace(uc[len(pre):]), ")"))
		if ua["name"] != `"`+t.Name+o.suffix {
			return finding("unique-name", "%s: unique constraint %s, want %s%s", c.name, ua["name"], t.Name, o.suffix)
		}
		cs := strings.Split(strings.Trim(ua["columnNames"], "[]"), ",")
		if len(cs) != len(uq) {
			return finding("unique-columns", "%s: unique columns %v, want %v", c.name, cs, names(uq))
		}
		for i, x := range cs {
			x = strings.TrimPrefix(strings.TrimSpace(x), `"`)
			if x != uq[i].Name && (overridden[uq[i].Name] || x != nameOf[uq[i].Name].name) {
				return finding("unique-columns", "%s: unique column %s, want %s", c.name, x, uq[i].Name)
			}
		}
	}
	// identifier class
	if (idClass != nil) != (len(pks) > 1) || len(f.classes) != 1+b2i(len(pks) > 1) {
		return finding("id-class", "%s has %d key columns, @IdClass %v, %d classes in the file", c.name, len(pks), idClass != nil, len(f.classes))
	}
	if idClass != nil {
		k := &f.classes[1]
		if nospace(idClass.args) != k.name+"::class" || k.name == c.name {
			return finding("id-class-name", "%s: @IdClass(%s), class %s", c.name, idClass.args, k.name)
		}
		if k.super != "Serializable" {
			return finding("id-class-type", "%s is not Serializable", k.name)
		}
		if len(k.props) != len(pks) {
			return finding("id-class-properties", "%s has %d properties for %d key columns", k.name, len(k.props), len(pks))
		}
		for i, pc := range pks {
			typ, def, _ := ktType(pc)
			if k.props[i].name != nameOf[pc.Name].name || k.props[i].typ != typ || nospace(k.props[i].def) != nospace(def) {
				return finding("id-class-properties", "%s property %d is %s: %s = %s, want %s: %s = %s", k.name, i, k.props[i].name, k.props[i].typ, k.props[i].def, nameOf[pc.Name].name, typ, def)
			}
		}
	}
	// interface with an id
	sup := ""
	if o.idEntity != "" && len(pks) == 1 && nameOf[pks[0].Name].name == "id" {
		sup = o.idEntity + "<" + nameOf[pks[0].Name].typ + ">"
	}
	if c.super != sup {
		return finding("id-entity", "%s extends %q, want %q", c.name, c.super, sup)
	}
	got := map[string]string{}
	for _, i := range f.imports {
		if _, ok := got[i]; ok {
			return finding("imports", "%s imports %s twice", path, i)
		}
		got[i] = ""
	}
	want := map[string]string{}
	for i := range imports {
		want[i] = ""
	}
	if d := sameMaps(got, want); d != "" {
		return finding("imports", "%s imports %v, want %v", path, f.imports, imports)
	}
	return nil
}

func sameMaps(got, want map[string]string) string {
	for k, v := range want {
		if g, ok := got[k]; !ok || nospace(g) != nospace(v) {
			return k
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return k
		}
	}
	return ""
}

// ktSnake is the column name that a naming strategy derives from a property name.
func ktSnake(s string) string {
	var b strings.Builder
	for i, r := range s {
		if r >= 'A' && r <= 'Z' && i > 0 {
			b.WriteByte('_')
		}
		b.WriteString(strings.ToLower(string(r)))
	}
	return b.String()
}

func refTable(n *Schema, c *Col) *Table {
	if c.Ref == nil {
		return nil
	}
	return n.Table(c.Ref.Table)
}

func colText(c *Col) string { b, _ := json.Marshal(c); return string(b) }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Clear removes a directory of the scratch directory.
func (r *Runner) Clear(dir string) { os.RemoveAll(filepath.Join(r.dir, dir)) }

func (r *Runner) runKt(n *Schema, o ktOpt, args ...string) []Finding {
	r.Clear("d")
	a := append([]string{"generate", "kt", "-i", "in.json", "-o", "d"}, args...)
	res := r.Run(a...)
	if !res.OK() {
		return finding("command-failed", "%s: exit %d\n%s", cmdLine(a), res.Exit, clip(res.Out, 800))
	}
	f := checkKt(r.subTree("d"), n, o)
	if f != nil {
		f[0].Msg = fmt.Sprintf("generate kt %v: %s", args, f[0].Msg)
	}
	return f
}

func evalC18(r *Runner, c *Case) []Finding {
	r.PutSchema("in.json", c.S)
	n := Norm(c.S)
	if f := r.runKt(n, ktOpt{names: nameOpt{useClass: true}}); f != nil {
		return f
	}
	if f := r.runKt(n, ktOpt{pkg: "com.foo", idEntity: "IdEntity", suffix: "_uq", names: nameOpt{useClass: true}}, "-p", "com.foo", "-e", "IdEntity", "-q", "_uq"); f != nil {
		return f
	}
	if !c.Heavy {
		return nil
	}
	o := ktOpt{pkg: "one", annos: map[string][]string{"*": {`@Foo(a = "b)`}}, names: nameOpt{useClass: true, prefix: map[string]string{"*": "Pre"}}}
	if f := r.runKt(n, o, "-p", "one", "-a", `@Foo(a = "b")`, "-f", "Pre"); f != nil {
		return f
	}
	o = ktOpt{pkg: "a.b.c", annos: map[string][]string{"alpha": {"@Foo", "@Bar"}, "beta": {"@Baz"}, "": {"@None"}}, names: nameOpt{useClass: true, prefix: map[string]string{"alpha": "A", "": "N"}}}
	if f := r.runKt(n, o, "-p", "a.b.c", "-a", "alpha:@Foo;@Bar,beta:@Baz,:@None", "-f", "alpha:A,:N"); f != nil {
		return f
	}
	o = ktOpt{idEntity: "Ide", names: nameOpt{useClass: true, remove: []string{"tbl_", "t"}}}
	if removable(n, o.names.remove) {
		if f := r.runKt(n, o, "-d", "tbl_,t", "-e", "Ide"); f != nil {
			return f
		}
	}
	for _, g := range groupsOf(n) {
		if !strings.Contains(g, ",") && g != "" {
			if f := r.runKt(Filter(n, []string{g}), ktOpt{pkg: "p", names: nameOpt{useClass: true}}, "-p", "p", "-g", g); f != nil {
				return f
			}
		}
	}
	return nil
}

func evalC19(r *Runner, c *Case) []Finding {
	r.PutSchema("in.json", c.S)
	n := Norm(c.S)
	if f := r.runKt(n, ktOpt{pkg: "com.foo", repos: "com.foo.repo", relation: "VRelation", names: nameOpt{useClass: true}}, "-p", "com.foo", "-r", "com.foo.repo", "-l", "VRelation"); f != nil {
		return f
	}
	if f := r.runKt(n, ktOpt{repos: "repo", names: nameOpt{useClass: true}}, "-r", "repo"); f != nil {
		return f
	}
	if !c.Heavy {
		return nil
	}
	if f := r.runKt(n, ktOpt{pkg: "x.y", repos: "x.y", relation: "VRelation", idEntity: "E", names: nameOpt{useClass: true, prefix: map[string]string{"alpha": "A"}}}, "-p", "x.y", "-r", "x.y", "-l", "VRelation", "-e", "E", "-f", "alpha:A"); f != nil {
		return f
	}
	if f := r.runKt(n, ktOpt{pkg: "x", names: nameOpt{useClass: true}}, "-p", "x", "-l", "Other"); f != nil {
		return f
	}
	for _, g := range groupsOf(n) {
		if !strings.Contains(g, ",") && g != "" {
			if f := r.runKt(Filter(n, []string{g}), ktOpt{pkg: "p", repos: "q", relation: "VRelation", names: nameOpt{useClass: true}}, "-p", "p", "-r", "q", "-l", "VRelation", "-g", g); f != nil {
				return f
			}
		}
	}
	return nil
}

// alphaKeys: everything that decides keys and references.
func alphaKeys() *Alphabet {
	return &Alphabet{
		Types:     []string{"varchar", "int64", "int32", "decimal", "datetime", "enum", "boolean", "blob16", "date"},
		Flags:     "npa",
		ColNames:  []string{"id", "key_2"},
		Classes:   []string{"MyClass"},
		Groups:    []string{"alpha"},
		Refs:      []Ref{{}, {"*", "*", "n:1"}, {"=", "*", "1:n"}, {"$", "*", "1:1"}, {"nowhere", "id", "1:1"}, {"*", "no_col", ""}, {"^", "id", "n:1"}, {"*", "^", "n:1"}},
		Structure: true,
	}
}

func seedKt() *Schema {
	return &Schema{Version: "1", Tables: []*Table{
		{Name: "user_role", Group: "alpha", Columns: []*Col{{Name: "user_id", Type: "int64", PK: true, NotNull: true, Ref: &Ref{"user", "id", "n:1"}}, {Name: "role", Type: "varchar", Size: 10, PK: true, NotNull: true}, {Name: "since", Type: "datetime", NotNull: true}, {Name: "weight", Type: "decimal", Size: 4, Scale: 1}}},
		{Name: "user", Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true, AutoInc: true}, {Name: "created_at", Type: "datetime", NotNull: true}, {Name: "updated_at", Type: "datetime"}, {Name: "main_role", Type: "varchar", Size: 10, Ref: &Ref{"user_role", "role", "1:1"}}}},
	}}
}

func init() {
	register("C18", func(x *Ctx) {
		x.Pool(evalC18, func(emit func(*Case) bool) {
			x.Explore([]Seed{{"kt", seedKt()}}, []*Alphabet{alphaFull()}, genAble, heavyFirst(emit, 1))
			x.textCases(genAble, emit)
		})
	})
	register("C19", func(x *Ctx) {
		x.Pool(evalC19, func(emit func(*Case) bool) {
			x.Explore(append(genSeeds(genAble), Seed{"kt", seedKt()}), []*Alphabet{alphaKeys()}, genAble, heavyFirst(emit, 1))
			x.clashCases(genAble, emit)
			lv := []*Alphabet{alphaKeys(), alphaKeys()}
			if x.Thorough {
				b := alphaKeys()
				b.Types = []string{"varchar", "decimal"}
				b.ColNames, b.Classes, b.Groups = nil, nil, nil
				lv = append(lv, b)
			}
			x.Explore([]Seed{{"kt", seedKt()}, {"two", seedTwo()}}, lv, genAble, heavyFirst(emit, 0))
		})
	})
}
