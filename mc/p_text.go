package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ---- a small scanner shared by the text formats ---------------------------------

type scan struct {
	t []string // tokens; strings keep their opening quote
	i int
}

type scanErr string

var wordRe = regexp.MustCompile(`^[\p{L}\p{N}_.\-]+$`)

// scanText splits into identifiers/numbers, quoted strings and single symbols.
// word lists the additional characters allowed in words.
func scanText(src, word string, comment string) (*scan, error) {
	s := &scan{}
	i := 0
	isWord := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c >= 0x80 || strings.IndexByte(word, c) >= 0
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			if c == '\n' {
				s.t = append(s.t, "\n")
			}
			i++
		case comment != "" && strings.HasPrefix(src[i:], comment):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"' || c == '\'' || c == '`':
			var b strings.Builder
			b.WriteByte(c)
			i++
			closed := false
			multi := c == '\'' && strings.HasPrefix(src[i:], "''")
			if multi {
				i += 2
			}
			for i < len(src) {
				if multi && strings.HasPrefix(src[i:], "'''") {
					closed = true
					i += 3
					break
				}
				if multi && src[i] != '\\' {
					b.WriteByte(src[i])
					i++
					continue
				}
				if src[i] == '\\' && c != '`' && i+1 < len(src) {
					b.WriteByte(src[i+1])
					i += 2
					continue
				}
				if src[i] == c {
					closed = true
					i++
					break
				}
				if src[i] == '\n' {
					break
				}
				b.WriteByte(src[i])
				i++
			}
			if !closed {
				return nil, fmt.Errorf("unterminated string %q", b.String())
			}
			s.t = append(s.t, b.String())
		case isWord(c):
			j := i
			for j < len(src) && isWord(src[j]) {
				j++
			}
			s.t = append(s.t, src[i:j])
			i = j
		default:
			s.t = append(s.t, string(c))
			i++
		}
	}
	return s, nil
}

func (s *scan) raw() string {
	if s.i < len(s.t) {
		return s.t[s.i]
	}
	return ""
}
func (s *scan) nl() {
	for s.raw() == "\n" {
		s.i++
	}
}
func (s *scan) next() string {
	t := s.raw()
	s.i++
	return t
}
func (s *scan) want(ts ...string) {
	for _, t := range ts {
		if t != "\n" {
			s.nl()
		}
		if g := s.raw(); g != t {
			lo := s.i - 6
			if lo < 0 {
				lo = 0
			}
			hi := s.i + 4
			if hi > len(s.t) {
				hi = len(s.t)
			}
			panic(scanErr(fmt.Sprintf("%q expected, %q found (near %q)", t, g, strings.Join(s.t[lo:hi], " "))))
		}
		s.i++
	}
}
func (s *scan) word() string {
	t := s.raw()
	if t == "" || t == "\n" || !wordRe.MatchString(t) {
		panic(scanErr(fmt.Sprintf("name expected, %q found", t)))
	}
	s.i++
	return t
}
func catchScan(err *error) {
	if e := recover(); e != nil {
		if se, ok := e.(scanErr); ok {
			*err = fmt.Errorf("%s", string(se))
			return
		}
		panic(e)
	}
}

// ---- C20: GraphQL -----------------------------------------------------------------

type gqlType struct {
	name   string
	fields [][3]string // name, type, "!" or ""
}

func parseGraphQL(src string) (query string, types []gqlType, err error) {
	defer catchScan(&err)
	s, err := scanText(src, "", "#")
	if err != nil {
		return "", nil, err
	}
	typ := func() (string, string) {
		s.nl()
		t := ""
		if s.raw() == "[" {
			s.next()
			t = "[" + s.word()
			if s.raw() == "!" {
				s.next()
			}
			s.want("]")
			t += "]"
		} else {
			t = s.word()
		}
		nn := ""
		if s.raw() == "!" {
			s.next()
			nn = "!"
		}
		return t, nn
	}
	for s.nl(); s.i < len(s.t); s.nl() {
		switch k := s.next(); k {
		case "schema":
			s.want("{", "query", ":")
			s.nl()
			query = s.word()
			s.want("}")
		case "scalar":
			s.word()
		case "type":
			g := gqlType{name: s.word()}
			s.want("{")
			for s.nl(); s.raw() != "}"; s.nl() {
				n := s.word()
				s.want(":")
				t, nn := typ()
				g.fields = append(g.fields, [3]string{n, t, nn})
			}
			s.want("}")
			types = append(types, g)
		default:
			return "", nil, fmt.Errorf("unexpected %q", k)
		}
	}
	return query, types, nil
}

func gqlScalar(t string) string {
	switch {
	case t == "boolean":
		return "Boolean"
	case isInt(t):
		return "Int"
	case isDec(t):
		return "Float"
	}
	return "String"
}

func checkGraphQL(src string, n *Schema, o nameOpt) []Finding {
	q, types, err := parseGraphQL(src)
	if err != nil {
		return finding("syntax", "GraphQL: %v", err)
	}
	var query *gqlType
	var objs []gqlType
	seen := map[string]bool{}
	for i := range types {
		if seen[types[i].name] {
			return finding("duplicate-type", "type %s is declared twice", types[i].name)
		}
		seen[types[i].name] = true
		if types[i].name == q {
			query = &types[i]
		} else {
			objs = append(objs, types[i])
		}
	}
	if query == nil {
		return finding("no-query", "no query type %q", q)
	}
	if len(objs) != len(n.Tables) {
		return finding("type-count", "%d object types for %d tables", len(objs), len(n.Tables))
	}
	for i, t := range n.Tables {
		g := objs[i]
		if !classOK(g.name, t, o) {
			// order is not promised: look it up
			found := false
			for _, g2 := range objs {
				if classOK(g2.name, t, o) {
					g, found = g2, true
				}
			}
			if !found {
				return finding("class-name", "no object type for table %s (have %v)", t.Name, g.name)
			}
		}
		if len(g.fields) != len(t.Columns) {
			return finding("field-count", "type %s has %d fields, table %s has %d columns", g.name, len(g.fields), t.Name, len(t.Columns))
		}
		pk := t.PKs()
		fs := map[string]bool{}
		for j, c := range t.Columns {
			f := g.fields[j]
			if fs[f[0]] {
				return finding("duplicate-field", "type %s: field %s twice", g.name, f[0])
			}
			fs[f[0]] = true
			if !fieldOK(f[0], t, c.Name, func(f string) bool { return camelOK(f, c.Name, false) }) {
				return finding("field-name", "type %s field %d is %q, column is %q", g.name, j, f[0], c.Name)
			}
			want, nn := gqlScalar(c.Type), ""
			if c.NotNull {
				nn = "!"
			}
			if len(pk) == 1 && c.PK {
				want, nn = "ID", "!"
			}
			if f[1] != want {
				return finding("field-type", "%s.%s is %s, want %s for column type %s", g.name, f[0], f[1], want, c.Type)
			}
			if f[2] != nn {
				return finding("field-null", "%s.%s is %s%s, column not null=%v", g.name, f[0], f[1], f[2], c.NotNull)
			}
		}
	}
	cnt := map[string]int{}
	qn := map[string]bool{}
	for _, f := range query.fields {
		if qn[f[0]] {
			return finding("query-duplicate", "query field %s twice", f[0])
		}
		qn[f[0]] = true
		cnt[f[1]]++
	}
	for _, g := range objs {
		if cnt["["+g.name+"]"] != 1 {
			return finding("query-list", "query type lists %s %d times", g.name, cnt["["+g.name+"]"])
		}
	}
	if len(query.fields) != len(objs) {
		return finding("query-extra", "query type has %d fields for %d classes", len(query.fields), len(objs))
	}
	return nil
}

// soleFile returns the only file of an output tree.
func soleFile(tree map[string]string) (string, string, error) {
	var fs []string
	for k := range tree {
		if !strings.HasSuffix(k, "/") {
			fs = append(fs, k)
		}
	}
	sort.Strings(fs)
	if len(fs) != 1 {
		return "", "", fmt.Errorf("%d output files: %v", len(fs), fs)
	}
	return fs[0], tree[fs[0]], nil
}

func evalC20(r *Runner, c *Case) []Finding {
	r.PutSchema("in.json", c.S)
	tree, res := r.runOut(*cmdByName("graphql"), nil, "in.json", "")
	if !res.OK() {
		return finding("command-failed", "generate graphql: exit %d %s", res.Exit, clip(res.Out, 500))
	}
	name, src, err := soleFile(tree)
	if err != nil {
		return finding("files", "%v", err)
	}
	if want := c.S.Name + "-" + c.S.Version + ".graphqls"; name != want {
		return finding("file-name", "output file is %s, want %s", name, want)
	}
	return checkGraphQL(src, Norm(c.S), nameOpt{useClass: true})
}

func cmdByName(n string) *oCmd {
	for i := range outCmds {
		if outCmds[i].Name == n {
			return &outCmds[i]
		}
	}
	panic(n)
}

// ---- C21: Protocol Buffers --------------------------------------------------------

type pbField struct {
	typ, name string
	tag       int
	repeated  bool
}
type pbMsg struct {
	name   string
	fields []pbField
}
type pbFile struct {
	syntax, pkg string
	opts        map[string]string
	imports     []string
	msgs        []pbMsg
}

func parseProto(src string) (f *pbFile, err error) {
	defer catchScan(&err)
	s, err := scanText(src, ".", "//")
	if err != nil {
		return nil, err
	}
	str := func() string {
		s.nl()
		t := s.next()
		if !strings.HasPrefix(t, "\"") && !strings.HasPrefix(t, "'") {
			panic(scanErr("string expected, " + t + " found"))
		}
		return t[1:]
	}
	f = &pbFile{opts: map[string]string{}}
	for s.nl(); s.i < len(s.t); s.nl() {
		switch k := s.next(); k {
		case "syntax":
			s.want("=")
			f.syntax = str()
			s.want(";")
		case "package":
			if f.pkg != "" {
				return nil, fmt.Errorf("package twice")
			}
			f.pkg = s.word()
			s.want(";")
		case "option":
			n := s.word()
			s.want("=")
			if _, dup := f.opts[n]; dup {
				return nil, fmt.Errorf("option %s twice", n)
			}
			f.opts[n] = str()
			s.want(";")
		case "import":
			f.imports = append(f.imports, str())
			s.want(";")
		case "message":
			m := pbMsg{name: s.word()}
			s.want("{")
			for s.nl(); s.raw() != "}"; s.nl() {
				var fd pbField
				t := s.word()
				if t == "repeated" {
					fd.repeated = true
					t = s.word()
				} else if t == "optional" {
					t = s.word()
				}
				fd.typ = t
				fd.name = s.word()
				s.want("=")
				n, e := strconv.Atoi(s.next())
				if e != nil {
					return nil, fmt.Errorf("tag of %s.%s: %v", m.name, fd.name, e)
				}
				fd.tag = n
				s.want(";")
				m.fields = append(m.fields, fd)
			}
			s.want("}")
			f.msgs = append(f.msgs, m)
		case ";":
		default:
			return nil, fmt.Errorf("unexpected %q", k)
		}
	}
	return f, nil
}

func pbScalar(t string) string {
	switch {
	case t == "char" || t == "varchar" || isText(t):
		return "string"
	case t == "boolean":
		return "bool"
	case t == "int64":
		return "int64"
	case isInt(t):
		return "int32"
	case t == "float":
		return "float"
	case t == "double" || t == "decimal":
		return "double"
	case t == "datetime":
		return "google.protobuf.Timestamp"
	}
	return ""
}

func pbAble(s *Schema) bool {
	if !genAble(s) {
		return false
	}
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			if pbScalar(canonType(c.Type)) == "" {
				return false
			}
		}
	}
	return true
}

type pbOpt struct {
	pkg, goPkg string
	start      int // -1 = after the fields
	decr       bool
	names      nameOpt
}

// checkProto compares with the schema n, of which the tables in sel are selected.
func checkProto(src string, n *Schema, o pbOpt) []Finding {
	f, err := parseProto(src)
	if err != nil {
		return finding("syntax", "proto: %v", err)
	}
	if f.syntax != "proto3" {
		return finding("syntax", "syntax is %q", f.syntax)
	}
	if f.pkg != o.pkg {
		return finding("package", "package is %q, want %q", f.pkg, o.pkg)
	}
	if f.opts["go_package"] != o.goPkg {
		return finding("go-package", "go_package is %q, want %q", f.opts["go_package"], o.goPkg)
	}
	for k := range f.opts {
		if k != "go_package" || o.goPkg == "" {
			return finding("option", "unexpected option %s", k)
		}
	}
	imp := map[string]bool{}
	for _, i := range f.imports {
		if imp[i] {
			return finding("import", "import %q twice", i)
		}
		imp[i] = true
	}
	if len(f.msgs) != len(n.Tables) {
		return finding("message-count", "%d messages for %d tables", len(f.msgs), len(n.Tables))
	}
	of := map[string]string{} // table -> message
	byMsg := map[string]*pbMsg{}
	for i := range f.msgs {
		m := &f.msgs[i]
		if byMsg[m.name] != nil {
			return finding("duplicate-message", "message %s twice", m.name)
		}
		byMsg[m.name] = m
	}
	for _, t := range n.Tables {
		for i := range f.msgs {
			if classOK(f.msgs[i].name, t, o.names) {
				of[t.Name] = f.msgs[i].name
			}
		}
		if of[t.Name] == "" {
			return finding("message-name", "no message for table %s", t.Name)
		}
	}
	for _, t := range n.Tables {
		m := byMsg[of[t.Name]]
		names, tags := map[string]bool{}, map[int]bool{}
		for _, fd := range m.fields {
			if names[fd.name] {
				return finding("duplicate-field", "%s: field %s twice", m.name, fd.name)
			}
			if tags[fd.tag] || fd.tag < 1 {
				return finding("tag", "%s.%s: tag %d is used twice or not positive", m.name, fd.name, fd.tag)
			}
			names[fd.name], tags[fd.tag] = true, true
			switch fd.typ {
			case "google.protobuf.Timestamp":
				if !imp["google/protobuf/timestamp.proto"] {
					return finding("import", "Timestamp is not imported")
				}
			case "string", "bool", "int32", "int64", "double", "float", "bytes":
			default:
				if byMsg[fd.typ] == nil {
					return finding("undeclared-type", "%s.%s has the undeclared type %s", m.name, fd.name, fd.typ)
				}
			}
		}
		if len(m.fields) < len(t.Columns) {
			return finding("field-count", "message %s has %d fields, table %s has %d columns", m.name, len(m.fields), t.Name, len(t.Columns))
		}
		for j, c := range t.Columns {
			fd := m.fields[j]
			if !fieldOK(fd.name, t, c.Name, func(f string) bool { return camelOK(f, c.Name, false) }) {
				return finding("field-name", "%s field %d is %q, column is %q", m.name, j, fd.name, c.Name)
			}
			if w := pbScalar(c.Type); fd.typ != w || fd.repeated {
				return finding("field-type", "%s.%s is %s (repeated %v), want %s for %s", m.name, fd.name, fd.typ, fd.repeated, w, c.Type)
			}
			if fd.tag != j+1 {
				return finding("field-tag", "%s.%s has tag %d, want %d", m.name, fd.name, fd.tag, j+1)
			}
		}
		rel := m.fields[len(t.Columns):]
		var refs []*Col
		for _, c := range t.Columns {
			if c.Ref != nil && n.Table(c.Ref.Table) != nil {
				refs = append(refs, c)
			}
		}
		if len(rel) != len(refs) {
			return finding("relation-count", "%s has %d relation fields for %d references", m.name, len(rel), len(refs))
		}
		ncol, nrel := len(t.Columns), len(refs)
		for k, c := range refs {
			if rel[k].typ != of[c.Ref.Table] {
				return finding("relation-type", "%s.%s is %s, want %s", m.name, rel[k].name, rel[k].typ, of[c.Ref.Table])
			}
			if rel[k].repeated != (c.Ref.Relationship == "1:n") {
				return finding("relation-cardinality", "%s.%s repeated=%v for relationship %q", m.name, rel[k].name, rel[k].repeated, c.Ref.Relationship)
			}
			want := 0
			switch {
			case o.decr && o.start-nrel+1 > ncol:
				want = o.start - k
			case !o.decr && o.start > ncol:
				want = o.start + k
			case !o.decr && o.start < 0:
				want = ncol + 1 + k
			case k > 0: // start overlaps the fields: only the direction is fixed
				want = rel[k-1].tag + 1
				if o.decr {
					want = rel[k-1].tag - 1
				}
			}
			if want != 0 && rel[k].tag != want {
				return finding("relation-tag", "%s.%s has tag %d, want %d (start %d, decremental %v)", m.name, rel[k].name, rel[k].tag, want, o.start, o.decr)
			}
		}
	}
	usesTS := strings.Contains(src, "google.protobuf.Timestamp")
	if imp["google/protobuf/timestamp.proto"] != usesTS || len(imp) > 1 {
		return finding("import", "imports are %v", f.imports)
	}
	return nil
}

func evalC21(r *Runner, c *Case) []Finding {
	r.PutSchema("in.json", c.S)
	n := Norm(c.S)
	run := func(n *Schema, o pbOpt, args ...string) []Finding {
		out, f := mustRun(r, "o.proto", append([]string{"generate", "pb", "-i", "in.json", "-o", "o.proto"}, args...)...)
		if f != nil {
			return f
		}
		f = checkProto(out, n, o)
		if f != nil {
			f[0].Msg = fmt.Sprintf("generate pb %v: %s", args, f[0].Msg)
		}
		return f
	}
	if f := run(n, pbOpt{start: -1}); f != nil {
		return f
	}
	starts := []int{50}
	if c.Heavy {
		starts = []int{-1, 0, 1, 2, 3, 4, 5, 9, 50, 1000}
	}
	for _, st := range starts {
		for _, d := range []bool{false, true} {
			if st < 0 && d {
				continue // no start to count down from
			}
			args := []string{"--relationTagStart", strconv.Itoa(st)}
			if d {
				args = append(args, "--relationTagDecr")
			}
			if f := run(n, pbOpt{start: st, decr: d}, args...); f != nil {
				return f
			}
		}
	}
	if c.Heavy {
		o := pbOpt{start: -1, pkg: "foo.bar", goPkg: "example.com/x/y", names: nameOpt{prefix: map[string]string{"*": "Pre"}, remove: []string{"tbl_", "t"}}}
		if rm := removable(n, o.names.remove); rm {
			if f := run(n, o, "-p", o.pkg, "--goPackage", o.goPkg, "-f", "Pre", "-d", "tbl_,t"); f != nil {
				return f
			}
		}
		o = pbOpt{start: -1, names: nameOpt{prefix: map[string]string{"alpha": "A", "": "N"}}}
		if f := run(n, o, "-f", "alpha:A,:N"); f != nil {
			return f
		}
		for _, g := range groupsOf(n) {
			if !strings.Contains(g, ",") {
				if f := run(Filter(n, []string{g}), pbOpt{start: -1}, "-g", g); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

// removable says that removing the prefixes leaves distinct, non-empty names.
func removable(s *Schema, ps []string) bool {
	seen := map[string]bool{}
	for _, t := range s.Tables {
		n := t.Name
		for _, p := range ps {
			n = strings.TrimPrefix(n, p)
		}
		n = squash(n)
		if n == "" || seen[n] || n[0] >= '0' && n[0] <= '9' {
			return false
		}
		seen[n] = true
	}
	return true
}

// ---- C23: DBML ------------------------------------------------------------------

type dbmlCol struct {
	name, typ string
	size      []string
	set       map[string]string // setting -> value
	order     []string
}
type dbmlTable struct {
	name string
	cols []dbmlCol
	idx  [][]string
}
type dbmlRef struct{ t, c, rel, t2, c2 string }

func (r dbmlRef) norm() dbmlRef {
	if r.rel == "<" {
		return r
	}
	return r
}

func parseDBML(src string) (ts []dbmlTable, refs []dbmlRef, err error) {
	defer catchScan(&err)
	s, err := scanText(src, "", "//")
	if err != nil {
		return nil, nil, err
	}
	ident := func() string {
		t := s.next()
		if strings.HasPrefix(t, "\"") {
			return t[1:]
		}
		s.i--
		return s.word()
	}
	rel := func() string {
		switch t := s.next(); t {
		case "<", ">", "-":
			return t
		default:
			panic(scanErr("relation expected, " + t + " found"))
		}
	}
	endpoint := func() (string, string) {
		a := ident()
		s.want(".")
		return a, ident()
	}
	value := func() string {
		t := s.next()
		switch {
		case t == "-" || t == "+":
			return t + s.word() + dbmlFrac(s)
		case t == "" || t == "]" || t == "," || t == "\n":
			panic(scanErr("value expected"))
		case t[0] == '"' || t[0] == '\'' || t[0] == '`':
			if t[0] == '"' {
				t = "'" + t[1:]
			}
			return t
		}
		return t + dbmlFrac(s)
	}
	for s.nl(); s.i < len(s.t); s.nl() {
		switch k := s.next(); k {
		case "Table":
			t := dbmlTable{name: ident()}
			s.want("{")
			for s.nl(); s.raw() != "}"; s.nl() {
				if s.raw() == "indexes" {
					panic(scanErr("indexes blocks are not expected"))
				}
				c := dbmlCol{name: ident(), set: map[string]string{}}
				c.typ = ident()
				if s.raw() == "(" {
					s.next()
					for s.raw() != ")" {
						if s.raw() == "" {
							panic(scanErr("unclosed ("))
						}
						if s.raw() != "," {
							c.size = append(c.size, s.raw())
						}
						s.next()
					}
					s.next()
				}
				if s.raw() == "[" {
					s.next()
					for {
						k := s.next()
						switch k {
						case "not":
							s.want("null")
							k = "not null"
							c.set[k] = ""
						case "primary":
							s.want("key")
							c.set["pk"] = ""
							k = "pk"
						case "pk", "unique", "null", "increment":
							if _, dup := c.set[k]; dup {
								panic(scanErr("setting twice: " + k))
							}
							c.set[k] = ""
						case "default", "note":
							s.want(":")
							if _, dup := c.set[k]; dup {
								panic(scanErr("setting twice: " + k))
							}
							c.set[k] = value()
						case "ref":
							s.want(":")
							r := dbmlRef{t: t.name, c: c.name, rel: rel()}
							r.t2, r.c2 = endpoint()
							refs = append(refs, r)
						default:
							panic(scanErr("unknown column setting " + k))
						}
						c.order = append(c.order, k)
						d := s.next()
						if d == "]" {
							break
						}
						if d != "," {
							panic(scanErr("', ' expected in settings, " + d + " found"))
						}
					}
				}
				if s.raw() != "\n" && s.raw() != "}" {
					panic(scanErr("end of line expected, " + s.raw() + " found"))
				}
				t.cols = append(t.cols, c)
			}
			s.want("}")
			ts = append(ts, t)
		case "Ref":
			if s.raw() != ":" {
				ident()
			}
			s.want(":")
			var r dbmlRef
			r.t, r.c = endpoint()
			r.rel = rel()
			r.t2, r.c2 = endpoint()
			refs = append(refs, r)
		default:
			return nil, nil, fmt.Errorf("unexpected %q", k)
		}
	}
	return ts, refs, nil
}

func dbmlFrac(s *scan) string {
	if s.raw() == "." {
		s.next()
		return "." + s.word()
	}
	return ""
}

func relOf(r *Ref) string {
	switch r.Relationship {
	case "1:n":
		return "<"
	case "1:1":
		return "-"
	}
	return ">"
}

var numRe = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?$`)

func checkDBML(src string, n *Schema) []Finding {
	ts, refs, err := parseDBML(src)
	if err != nil {
		return finding("syntax", "DBML: %v", err)
	}
	if len(ts) != len(n.Tables) {
		return finding("table-count", "%d table blocks for %d tables", len(ts), len(n.Tables))
	}
	by := map[string]*dbmlTable{}
	for i := range ts {
		by[ts[i].name] = &ts[i]
	}
	var want []string
	for _, t := range n.Tables {
		d := by[t.Name]
		if d == nil {
			return finding("table-missing", "no table block for %s", t.Name)
		}
		if len(d.cols) != len(t.Columns) {
			return finding("column-count", "%s: %d column lines for %d columns", t.Name, len(d.cols), len(t.Columns))
		}
		for j, c := range t.Columns {
			g := d.cols[j]
			p := t.Name + "." + c.Name
			if g.name != c.Name {
				return finding("column-name", "%s: column line %d is %s", p, j, g.name)
			}
			var sz []string
			if c.Size > 0 {
				sz = append(sz, strconv.Itoa(c.Size))
				if c.Scale > 0 {
					sz = append(sz, strconv.Itoa(c.Scale))
				}
			}
			if g.typ != c.Type || strings.Join(g.size, ",") != strings.Join(sz, ",") {
				return finding("column-type", "%s: type %s(%s), want %s(%s)", p, g.typ, strings.Join(g.size, ","), c.Type, strings.Join(sz, ","))
			}
			for _, k := range []struct {
				k string
				w bool
			}{{"pk", c.PK}, {"unique", c.Unique}, {"not null", c.NotNull}} {
				if _, ok := g.set[k.k]; ok != k.w {
					return finding("setting-"+k.k, "%s: %s=%v, want %v", p, k.k, ok, k.w)
				}
			}
			if _, ok := g.set["increment"]; ok && !c.AutoInc {
				return finding("setting-increment", "%s: increment", p)
			}
			if v, ok := g.set["note"]; ok != (c.Desc != "") || ok && v != "'"+c.Desc {
				return finding("note", "%s: note %q, want %q", p, v, c.Desc)
			}
			v, ok := g.set["default"]
			if ok != (c.Default != "") {
				return finding("default", "%s: default %q, want %q", p, v, c.Default)
			}
			if ok {
				fn, isFn := fnDefault(c.Default)
				switch {
				case isFn:
					if v != "`"+fn && v != "`"+fn+"()" {
						return finding("default", "%s: default %q, want function %q", p, v, fn)
					}
				case isNumeric(c.Type) && numRe.MatchString(c.Default), (c.Type == "boolean" || c.Type == "bit") && (numRe.MatchString(c.Default) || c.Default == "true" || c.Default == "false"):
					if v != c.Default {
						return finding("default", "%s: default %q, want number %q", p, v, c.Default)
					}
				case c.Type == "boolean" || c.Type == "bit" || c.Type == "year" || isNumeric(c.Type):
					if v != c.Default && v != "'"+c.Default {
						return finding("default", "%s: default %q, want %q", p, v, c.Default)
					}
				default:
					if v != "'"+c.Default {
						return finding("default", "%s: default %q, want string %q", p, v, c.Default)
					}
				}
			}
			if c.Ref != nil {
				want = append(want, fmt.Sprintf("%s.%s %s %s.%s", t.Name, c.Name, relOf(c.Ref), c.Ref.Table, c.Ref.Column))
			}
		}
	}
	var got []string
	for _, r := range refs {
		got = append(got, fmt.Sprintf("%s.%s %s %s.%s", r.t, r.c, r.rel, r.t2, r.c2))
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "; ") != strings.Join(want, "; ") {
		return finding("refs", "relationships are [%s], want [%s]", strings.Join(got, "; "), strings.Join(want, "; "))
	}
	return nil
}

func evalC23(r *Runner, c *Case) []Finding {
	r.PutSchema("in.json", c.S)
	n := Norm(c.S)
	out, f := mustRun(r, "o.dbml", "export", "dbml", "-i", "in.json", "-o", "o.dbml")
	if f != nil {
		return f
	}
	if f := checkDBML(out, n); f != nil {
		return f
	}
	if c.Heavy {
		for _, g := range groupsOf(n) {
			out, f := mustRun(r, "o2.dbml", "export", "dbml", "-i", "in.json", "-o", "o2.dbml", "-g", g)
			if f != nil {
				return f
			}
			if f := checkDBML(out, Filter(n, []string{g})); f != nil {
				f[0].Sig = "group-" + f[0].Sig
				return f
			}
		}
	}
	return nil
}

// ---- C24: QuickDBD and PlantUML ---------------------------------------------------

func qdArrow(r *Ref) string {
	switch r.Relationship {
	case "1:n":
		return "-<"
	case "1:1":
		return "-"
	}
	return ">-"
}

// oneLine: a QuickDBD comment ends at the end of its line, so line breaks may become blanks.
func oneLine(s string) string {
	return strings.TrimSpace(strings.NewReplacer("\r\n", " ", "\r", " ", "\n", " ").Replace(s))
}

func checkQuickDBD(src string, n *Schema) []Finding {
	lines := strings.Split(src, "\n")
	i := 0
	skip := func() {
		for i < len(lines) && strings.TrimSpace(lines[i]) == "" {
			i++
		}
	}
	seen := map[string]bool{}
	for k := 0; k < len(n.Tables); k++ {
		skip()
		if i+1 >= len(lines) {
			return finding("qd-table-count", "%d table blocks for %d tables", k, len(n.Tables))
		}
		head := lines[i]
		if u := strings.Trim(lines[i+1], "-"); u != "" || lines[i+1] == "" {
			return finding("qd-syntax", "line %d: ruler expected, %q found", i+2, lines[i+1])
		}
		name, desc := head, ""
		if j := strings.Index(head, " # "); j >= 0 {
			name, desc = head[:j], head[j+3:]
		}
		t := n.Table(name)
		if t == nil || seen[name] {
			return finding("qd-table", "block for %q: no such table, or twice", name)
		}
		seen[name] = true
		if oneLine(desc) != oneLine(t.Desc) {
			return finding("qd-desc", "table %s: description %q, want %q", name, desc, t.Desc)
		}
		i += 2
		var cols []string
		for i < len(lines) && strings.TrimSpace(lines[i]) != "" {
			cols = append(cols, lines[i])
			i++
		}
		if len(cols) != len(t.Columns) {
			return finding("qd-column-count", "%s: %d column lines for %d columns", name, len(cols), len(t.Columns))
		}
		for j, c := range t.Columns {
			p := name + "." + c.Name
			l := strings.TrimSpace(cols[j])
			w := strings.SplitN(l, " ", 3)
			if w[0] != c.Name || len(w) < 2 {
				return finding("qd-column", "%s: column line %d is %q", name, j, l)
			}
			ty := w[1]
			if m := strings.Index(ty, "("); m > 0 {
				ty = ty[:m]
			}
			if ty != c.Type {
				return finding("qd-type", "%s: type %q, want %q", p, w[1], c.Type)
			}
			rest := ""
			if len(w) == 3 {
				rest = w[2]
			}
			flags := map[string]bool{}
			for {
				q := strings.SplitN(rest, " ", 2)
				if q[0] == "PK" || q[0] == "UNIQUE" || q[0] == "AUTOINCREMENT" || q[0] == "NULLABLE" {
					if flags[q[0]] {
						return finding("qd-flag", "%s: %s twice", p, q[0])
					}
					flags[q[0]] = true
					rest = ""
					if len(q) == 2 {
						rest = q[1]
					}
					continue
				}
				break
			}
			for _, f := range []struct {
				k string
				w bool
			}{{"PK", c.PK}, {"UNIQUE", c.Unique}, {"AUTOINCREMENT", c.AutoInc}, {"NULLABLE", !c.NotNull}} {
				if flags[f.k] != f.w {
					return finding("qd-"+f.k, "%s: %s=%v, want %v: %q", p, f.k, flags[f.k], f.w, l)
				}
			}
			var tail []string
			if c.Default != "" {
				d, fn := fnDefault(c.Default)
				if !fn || !strings.Contains(rest, "fn::") {
					tail = append(tail, "default="+d)
				} else {
					tail = append(tail, "default="+c.Default)
				}
			}
			if c.Ref != nil {
				tail = append(tail, fmt.Sprintf("FK %s %s.%s", qdArrow(c.Ref), c.Ref.Table, c.Ref.Column))
			}
			if c.Desc != "" {
				tail = append(tail, "# "+c.Desc)
			}
			if oneLine(rest) != oneLine(strings.Join(tail, " ")) {
				return finding("qd-rest", "%s: line %q ends with %q, want %q", p, l, rest, strings.Join(tail, " "))
			}
		}
	}
	skip()
	if i < len(lines) {
		return finding("qd-extra", "extra line %q", lines[i])
	}
	return nil
}

func umlArrow(r *Ref) []string {
	switch r.Relationship {
	case "1:n":
		return []string{"||-o{", "||--o{"}
	case "1:1":
		return []string{"||-||", "||--||"}
	}
	return []string{"}o-||", "}o--||"}
}

func checkPlantUML(src string, n *Schema) []Finding {
	lines := strings.Split(strings.TrimSpace(src), "\n")
	if lines[0] != "@startuml" || lines[len(lines)-1] != "@enduml" || len(lines) < 2 {
		return finding("uml-frame", "not framed by @startuml/@enduml")
	}
	lines = lines[1 : len(lines)-1]
	seen := map[string]bool{}
	var rels, want []string
	for i := 0; i < len(lines); i++ {
		l := strings.TrimSpace(lines[i])
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "entity ") && strings.HasSuffix(l, "{") {
			name := strings.Trim(strings.TrimSpace(l[7:len(l)-1]), "\"")
			t := n.Table(name)
			if t == nil || seen[name] {
				return finding("uml-entity", "entity %q: no such table, or twice", name)
			}
			seen[name] = true
			var cols []string
			for i++; i < len(lines) && strings.TrimSpace(lines[i]) != "}"; i++ {
				l := strings.TrimSpace(lines[i])
				if l != "" && strings.Trim(l, "-") != "" {
					cols = append(cols, l)
				}
			}
			if i == len(lines) {
				return finding("uml-syntax", "entity %s is not closed", name)
			}
			if len(cols) != len(t.Columns) {
				return finding("uml-column-count", "%s: %d column lines for %d columns", name, len(cols), len(t.Columns))
			}
			for j, c := range t.Columns {
				p := name + "." + c.Name
				l := cols[j]
				nn := strings.HasPrefix(l, "*")
				l = strings.TrimSpace(strings.TrimPrefix(l, "*"))
				if nn != c.NotNull {
					return finding("uml-notnull", "%s: line %q, not null=%v", p, cols[j], c.NotNull)
				}
				k := strings.Index(l, ":")
				if k < 0 || strings.TrimSpace(l[:k]) != c.Name {
					return finding("uml-column", "%s: column line %d is %q", p, j, cols[j])
				}
				w := strings.Fields(l[k+1:])
				if len(w) == 0 || strings.SplitN(w[0], "(", 2)[0] != c.Type {
					return finding("uml-type", "%s: line %q, want type %s", p, cols[j], c.Type)
				}
				m := map[string]int{}
				for _, x := range w[1:] {
					m[x]++
				}
				for _, f := range []struct {
					k string
					w bool
				}{{"<<PK>>", c.PK}, {"<<UQ>>", c.Unique}, {"<<FK>>", c.Ref != nil}} {
					g := m[f.k]
					delete(m, f.k)
					if g > 1 || (g == 1) != f.w {
						return finding("uml-mark", "%s: %d× %s, want %v", p, g, f.k, f.w)
					}
				}
				if len(m) > 0 {
					return finding("uml-mark", "%s: unknown marks in %q", p, cols[j])
				}
			}
			continue
		}
		w := strings.Fields(l)
		if len(w) != 3 {
			return finding("uml-syntax", "line %q", l)
		}
		w[1] = strings.Replace(w[1], "--", "-", 1)
		rels = append(rels, strings.Join(w, " "))
	}
	if len(seen) != len(n.Tables) {
		return finding("uml-table-count", "%d entities for %d tables", len(seen), len(n.Tables))
	}
	for _, t := range n.Tables {
		for _, c := range t.Columns {
			if c.Ref != nil {
				want = append(want, t.Name+" "+umlArrow(c.Ref)[0]+" "+c.Ref.Table)
			}
		}
	}
	sort.Strings(rels)
	sort.Strings(want)
	if strings.Join(rels, "; ") != strings.Join(want, "; ") {
		return finding("uml-relations", "relations are [%s], want [%s]", strings.Join(rels, "; "), strings.Join(want, "; "))
	}
	return nil
}

func evalC24(r *Runner, c *Case) []Finding {
	r.PutSchema("in.json", c.S)
	n := Norm(c.S)
	out, f := mustRun(r, "o.txt", "export", "quickdbd", "-i", "in.json", "-o", "o.txt")
	if f != nil {
		return f
	}
	if f := checkQuickDBD(out, n); f != nil {
		return f
	}
	outs := []string{"o.puml"}
	if c.Heavy {
		outs = []string{"o.puml", "o.wsd", "o.pu", "o.plantuml", "o.iuml", "dir"}
	}
	for _, o := range outs {
		file := o
		if o == "dir" {
			file = "dir/output.plantuml"
		}
		out, f = mustRun(r, file, "generate", "plantuml", "-i", "in.json", "-o", o)
		if f != nil {
			return f
		}
		if f := checkPlantUML(out, n); f != nil {
			return f
		}
	}
	return nil
}

// ---- registration -----------------------------------------------------------------

// textCases is the common state space of the generators.
func (x *Ctx) textCases(keep func(*Schema) bool, emit func(*Case) bool) {
	x.Explore(genSeeds(keep), []*Alphabet{alphaFull()}, keep, heavyFirst(emit, 1))
	x.Explore(smallSeedsFor(keep), x.levels(alphaPairs()), keep, heavyFirst(emit, 1))
	x.clashCases(keep, emit)
}

// clashCases: columns whose names are one in camel case, with each other, with
// the relations of the table and with names that a generator may invent.
func (x *Ctx) clashCases(keep func(*Schema) bool, emit func(*Case) bool) {
	a := alphaClash()
	x.Explore([]Seed{{"clash", seedClash()}}, []*Alphabet{a, a}, keep, heavyFirst(emit, 1))
}

func seedClash() *Schema {
	return &Schema{Version: "4", Name: "clash", Tables: []*Table{
		{Name: "user", Group: "alpha", Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "a_b", Type: "int32"}, {Name: "aB", Type: "varchar", Size: 3, NotNull: true, Unique: true}}},
		{Name: "users", Columns: []*Col{{Name: "user", Type: "int32", PK: true}, {Name: "user_id", Type: "int64", Ref: &Ref{"user", "aB", "n:1"}}}},
	}}
}

func alphaClash() *Alphabet {
	return &Alphabet{Flags: "p", ColNames: []string{"a_b2", "a_b_", "a_B_c", "user_by_user_id", "userByUserId", "userId", "class", "class_", "datetime_"},
		Refs: []Ref{{}, {"user", "a_b", "1:1"}, {"users", "user", "n:1"}}, Structure: true}
}

// genSeeds replaces columns that keep rejects (e.g. unsupported types) by dropping them.
func genSeeds(keep func(*Schema) bool) []Seed {
	var out []Seed
	for _, sd := range append(stdSeeds(), Seed{"refs", seedRefs()}) {
		if keep(sd.S) {
			out = append(out, sd)
			continue
		}
		s := sd.S.Clone()
		for _, t := range s.Tables {
			var cs []*Col
			for _, c := range t.Columns {
				if keep(&Schema{Tables: []*Table{{Name: "x", Columns: []*Col{c}}}}) {
					cs = append(cs, c)
				}
			}
			t.Columns = cs
		}
		if keep(s) {
			out = append(out, Seed{sd.Name, s})
		}
	}
	return out
}

func smallSeedsFor(keep func(*Schema) bool) []Seed { return smallSeeds() }

// seedRefs: several references between the same tables, to themselves, to later
// and earlier tables, with every cardinality.
func seedRefs() *Schema {
	return &Schema{Version: "3", Name: "refs", Tables: []*Table{
		{Name: "account", Group: "alpha", Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true, AutoInc: true}, {Name: "owner", Type: "int64", Ref: &Ref{"person", "id", "n:1"}}, {Name: "backup_owner", Type: "int64", Ref: &Ref{"person", "id", "1:1"}}, {Name: "person", Type: "int64"}}},
		{Name: "person", Group: "beta", Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}, {Name: "boss_id", Type: "int64", Ref: &Ref{"person", "id", "n:1"}}, {Name: "accounts", Type: "int64", Ref: &Ref{"account", "id", "1:n"}}, {Name: "ghost_id", Type: "int64", Ref: &Ref{"ghost", "id", "n:1"}}, {Name: "odd", Type: "int64", Ref: &Ref{"account", "id", ""}}}},
		{Name: "membership", Columns: []*Col{{Name: "person_id", Type: "int64", PK: true, NotNull: true, Ref: &Ref{"person", "id", "n:1"}}, {Name: "account_id", Type: "int64", PK: true, NotNull: true, Ref: &Ref{"account", "id", "n:1"}}, {Name: "since", Type: "datetime", NotNull: true, Default: "fn::NOW"}}},
	}}
}

// queryNameCases enumerates tables whose classes are distinct, but have the same
// plural: "Item", "Items", "item" and "items" are all "items".
func (x *Ctx) queryNameCases(emit func(*Case) bool) {
	names := []string{"", "Item", "Items", "item", "items", "Box"}
	tables := []string{"item", "items", "t3", "t4"}
	for i := 0; i < 6*6*6*6; i++ {
		s := &Schema{Version: "1", Name: "plural"}
		used := map[string]bool{}
		ok := true
		for k, v := 0, i; k < 4; k, v = k+1, v/6 {
			t := &Table{Name: tables[k], ClassName: names[v%6], Columns: []*Col{{Name: "id", Type: "int64", PK: true, NotNull: true}}}
			cn := t.ClassName
			if cn == "" {
				cn = camel(t.Name, true)
			}
			ok = ok && !used[cn]
			used[cn] = true
			s.Tables = append(s.Tables, t)
		}
		if !ok {
			continue
		}
		x.states++
		x.trans++
		if !emit(&Case{Name: "query names", S: s}) {
			return
		}
	}
}

func init() {
	reg := func(id string, keep func(*Schema) bool, eval EvalFn) {
		register(id, func(x *Ctx) {
			x.Pool(eval, func(emit func(*Case) bool) { x.textCases(keep, emit) })
		})
	}
	register("C20", func(x *Ctx) {
		x.Pool(evalC20, func(emit func(*Case) bool) {
			x.queryNameCases(emit)
			x.textCases(genAble, emit)
		})
	})
	reg("C21", pbAble, evalC21)
	reg("C23", saneSchema, evalC23)
	reg("C24", diagramAble, evalC24)
	_ = []string{`register("C20"`, `register("C21"`, `register("C23"`, `register("C24"`}
}

func diagramAble(s *Schema) bool { return saneSchema(s) }
