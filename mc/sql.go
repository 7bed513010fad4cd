package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"
)

// A small MySQL DDL reader: tokens, statements, and a database state that the
// statements are executed on.

type tok struct {
	k string // id, qid, str, num, punct
	v string
}

func sqlTokens(src string) ([]tok, error) {
	var ts []tok
	i := 0
	for i < len(src) {
		c, w := utf8.DecodeRuneInString(src[i:])
		switch {
		case unicode.IsSpace(c):
			i += w
		case strings.HasPrefix(src[i:], "--"), c == '#':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "/*"):
			j := strings.Index(src[i:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("unterminated comment")
			}
			i += j + 2
		case c == '`':
			var b strings.Builder
			i++
			for {
				if i >= len(src) {
					return nil, fmt.Errorf("unterminated identifier")
				}
				if src[i] == '`' {
					if i+1 < len(src) && src[i+1] == '`' {
						b.WriteByte('`')
						i += 2
						continue
					}
					i++
					break
				}
				b.WriteByte(src[i])
				i++
			}
			ts = append(ts, tok{"qid", b.String()})
		case c == '\'' || c == '"':
			q := src[i]
			var b strings.Builder
			i++
			for {
				if i >= len(src) {
					return nil, fmt.Errorf("unterminated string literal")
				}
				if src[i] == q {
					if i+1 < len(src) && src[i+1] == q {
						b.WriteByte(q)
						i += 2
						continue
					}
					i++
					break
				}
				if src[i] == '\\' && i+1 < len(src) {
					switch src[i+1] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					case '0':
						b.WriteByte(0)
					default:
						b.WriteByte(src[i+1])
					}
					i += 2
					continue
				}
				b.WriteByte(src[i])
				i++
			}
			ts = append(ts, tok{"str", b.String()})
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(src) && src[i+1] >= '0' && src[i+1] <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == '.') {
				j++
			}
			if j < len(src) && (src[j] == 'e' || src[j] == 'E') {
				k := j + 1
				if k < len(src) && (src[k] == '+' || src[k] == '-') {
					k++
				}
				if k < len(src) && src[k] >= '0' && src[k] <= '9' {
					for k < len(src) && src[k] >= '0' && src[k] <= '9' {
						k++
					}
					j = k
				}
			}
			// identifiers may begin with a digit
			if j < len(src) && (unicode.IsLetter(rune(src[j])) || src[j] == '_') {
				for j < len(src) && (unicode.IsLetter(rune(src[j])) || src[j] == '_' || src[j] >= '0' && src[j] <= '9') {
					j++
				}
				ts = append(ts, tok{"id", src[i:j]})
			} else {
				ts = append(ts, tok{"num", src[i:j]})
			}
			i = j
		case unicode.IsLetter(c) || c == '_' || c == '$':
			j := i
			for j < len(src) {
				d, w := utf8.DecodeRuneInString(src[j:])
				if unicode.IsLetter(d) || unicode.IsDigit(d) || d == '_' || d == '$' {
					j += w
					continue
				}
				break
			}
			ts = append(ts, tok{"id", src[i:j]})
			i = j
		default:
			ts = append(ts, tok{"punct", string(c)})
			i += w
		}
	}
	return ts, nil
}

type DVal struct {
	Kind string // str num bare fn
	Text string
}

func (v *DVal) String() string {
	if v == nil {
		return "-"
	}
	return v.Kind + ":" + v.Text
}

type DCol struct {
	Name     string
	Type     string
	Args     string // numeric arguments joined by ","
	Values   []string
	Attrs    []string
	NotNull  bool
	AutoInc  bool
	Default  *DVal
	OnUpdate *DVal
	Comment  string
}

type DKey struct {
	Name string
	Cols []string
}

type DTable struct {
	Name        string
	IfNotExists bool
	Cols        []*DCol
	PK          []string
	Uniques     []DKey
	Indexes     []DKey
	Comment     string
}

type SQLStmt struct {
	Kind  string // create drop rename addcol modify droppk addpk dropcol ...
	Table string
	To    string
	T     *DTable
	Col   *DCol
	Cols  []string
	Text  string
	pk    bool
	uniq  bool
}

type sqlParser struct {
	ts []tok
	i  int
}

func (p *sqlParser) peek() tok {
	if p.i < len(p.ts) {
		return p.ts[p.i]
	}
	return tok{"eof", ""}
}
func (p *sqlParser) next() tok {
	t := p.peek()
	p.i++
	return t
}
func (p *sqlParser) kw(words ...string) bool {
	for k, w := range words {
		if p.i+k >= len(p.ts) {
			return false
		}
		t := p.ts[p.i+k]
		if t.k != "id" || !strings.EqualFold(t.v, w) {
			return false
		}
	}
	p.i += len(words)
	return true
}
func (p *sqlParser) punct(s string) bool {
	if t := p.peek(); t.k == "punct" && t.v == s {
		p.i++
		return true
	}
	return false
}
func (p *sqlParser) fail(f string, a ...interface{}) {
	ctx := ""
	for k := p.i - 3; k < p.i+4; k++ {
		if k >= 0 && k < len(p.ts) {
			ctx += " " + p.ts[k].v
		}
	}
	panic(fmt.Errorf(f+" near '%s'", append(a, ctx)...))
}
func (p *sqlParser) must(s string) {
	if !p.punct(s) {
		p.fail("expected %q", s)
	}
}
func (p *sqlParser) ident() string {
	t := p.next()
	if t.k != "id" && t.k != "qid" {
		p.i--
		p.fail("expected identifier, got %s %q", t.k, t.v)
	}
	return t.v
}

func (p *sqlParser) colList() []string {
	p.must("(")
	r := []string{}
	for {
		r = append(r, p.ident())
		if p.punct("(") { // key prefix
			p.next()
			p.must(")")
		}
		if p.kw("ASC") || p.kw("DESC") {
		}
		if p.punct(",") {
			continue
		}
		p.must(")")
		return r
	}
}

func (p *sqlParser) value() *DVal {
	neg := ""
	if p.punct("-") {
		neg = "-"
	} else {
		p.punct("+")
	}
	t := p.next()
	switch t.k {
	case "str":
		return &DVal{"str", t.v}
	case "num":
		return &DVal{"num", neg + t.v}
	case "id":
		if neg != "" {
			p.fail("bad value")
		}
		if p.punct("(") {
			args := ""
			for !p.punct(")") {
				a := p.next()
				if a.k == "eof" {
					p.fail("unterminated call")
				}
				args += a.v
			}
			return &DVal{"fn", t.v + args2(args)}
		}
		return &DVal{"bare", t.v}
	}
	p.i--
	p.fail("bad value %q", t.v)
	return nil
}

func args2(a string) string {
	if a == "" {
		return ""
	}
	return "(" + a + ")"
}

func (p *sqlParser) column() (c *DCol, pk, uniq bool) {
	c = &DCol{Name: p.ident()}
	t := p.next()
	if t.k != "id" {
		p.i--
		p.fail("expected column type")
	}
	c.Type = strings.ToLower(t.v)
	if p.punct("(") {
		var args []string
		for {
			t := p.next()
			if t.k == "num" {
				args = append(args, t.v)
			} else if t.k == "str" {
				c.Values = append(c.Values, t.v)
			} else {
				p.i--
				p.fail("bad type argument")
			}
			if p.punct(",") {
				continue
			}
			p.must(")")
			break
		}
		c.Args = strings.Join(args, ",")
	}
	for {
		switch {
		case p.kw("NOT", "NULL"):
			c.NotNull = true
		case p.kw("NULL"):
		case p.kw("AUTO_INCREMENT"):
			c.AutoInc = true
		case p.kw("DEFAULT"):
			if c.Default != nil {
				p.fail("two defaults")
			}
			c.Default = p.value()
		case p.kw("ON", "UPDATE"):
			c.OnUpdate = p.value()
		case p.kw("COMMENT"):
			t := p.next()
			if t.k != "str" {
				p.i--
				p.fail("comment is not a string")
			}
			c.Comment = t.v
		case p.kw("PRIMARY", "KEY"):
			pk = true
		case p.kw("UNIQUE", "KEY"), p.kw("UNIQUE"):
			uniq = true
		case p.kw("UNSIGNED"), p.kw("ZEROFILL"):
			c.Attrs = append(c.Attrs, "unsigned")
		default:
			return
		}
	}
}

func (p *sqlParser) createTable() *DTable {
	t := &DTable{}
	t.IfNotExists = p.kw("IF", "NOT", "EXISTS")
	t.Name = p.ident()
	p.must("(")
	if p.punct(")") {
		return t
	}
	for {
		switch {
		case p.kw("PRIMARY", "KEY"):
			if t.PK != nil {
				p.fail("two primary keys")
			}
			t.PK = p.colList()
		case p.kw("UNIQUE", "KEY"), p.kw("UNIQUE", "INDEX"), p.kw("UNIQUE"):
			k := DKey{}
			if tk := p.peek(); tk.k == "id" || tk.k == "qid" {
				k.Name = p.ident()
			}
			k.Cols = p.colList()
			t.Uniques = append(t.Uniques, k)
		case p.kw("INDEX"), p.kw("KEY"):
			k := DKey{}
			if tk := p.peek(); tk.k == "id" || tk.k == "qid" {
				k.Name = p.ident()
			}
			k.Cols = p.colList()
			t.Indexes = append(t.Indexes, k)
		default:
			c, pk, uq := p.column()
			for _, o := range t.Cols {
				if strings.EqualFold(o.Name, c.Name) {
					p.fail("duplicate column %s", c.Name)
				}
			}
			t.Cols = append(t.Cols, c)
			if pk {
				t.PK = append(t.PK, c.Name)
			}
			if uq {
				t.Uniques = append(t.Uniques, DKey{"", []string{c.Name}})
			}
		}
		if p.punct(",") {
			continue
		}
		p.must(")")
		break
	}
	for { // table options
		if p.kw("COMMENT") {
			p.punct("=")
			t.Comment = p.next().v
			continue
		}
		if tk := p.peek(); tk.k == "id" || tk.k == "punct" && tk.v == "=" || tk.k == "num" {
			p.i++
			continue
		}
		return t
	}
}

func parseSQL(src string) (stmts []*SQLStmt, err error) {
	ts, err := sqlTokens(src)
	if err != nil {
		return nil, err
	}
	p := &sqlParser{ts: ts}
	defer func() {
		if e := recover(); e != nil {
			if er, ok := e.(error); ok {
				err = er
				return
			}
			panic(e)
		}
	}()
	for p.i < len(p.ts) {
		if p.punct(";") {
			continue
		}
		s := &SQLStmt{}
		switch {
		case p.kw("CREATE", "TABLE"):
			s.Kind = "create"
			s.T = p.createTable()
			s.Table = s.T.Name
		case p.kw("DROP", "TABLE"):
			p.kw("IF", "EXISTS")
			s.Kind, s.Table = "drop", p.ident()
		case p.kw("RENAME", "TABLE"):
			s.Kind, s.Table = "rename", p.ident()
			if !p.kw("TO") {
				p.fail("expected TO")
			}
			s.To = p.ident()
		case p.kw("ALTER", "TABLE"):
			s.Table = p.ident()
			switch {
			case p.kw("DROP", "PRIMARY", "KEY"):
				s.Kind = "droppk"
			case p.kw("ADD", "PRIMARY", "KEY"):
				s.Kind = "addpk"
				s.Cols = p.colList()
			case p.kw("RENAME", "TO"):
				s.Kind = "rename"
				s.To = p.ident()
			case p.kw("DROP", "COLUMN"), p.kw("DROP"):
				s.Kind = "dropcol"
				s.Cols = []string{p.ident()}
			case p.kw("MODIFY", "COLUMN"), p.kw("MODIFY"):
				s.Kind = "modify"
				s.Col, s.pk, s.uniq = p.column()
			case p.kw("ADD", "COLUMN"), p.kw("ADD"):
				s.Kind = "addcol"
				s.Col, s.pk, s.uniq = p.column()
				if p.kw("AFTER") {
					s.To = p.ident()
				} else if p.kw("FIRST") {
					s.To = "\x00first"
				}
			default:
				p.fail("unknown ALTER TABLE action")
			}
		default:
			p.fail("unknown statement")
		}
		stmts = append(stmts, s)
		if p.i < len(p.ts) {
			p.must(";")
		}
	}
	return stmts, nil
}
