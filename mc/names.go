package main

import (
	"regexp"
	"strings"
)

var plainSnake = regexp.MustCompile(`^[a-z]+(_[a-z]+)*[0-9]*$`)

func camel(s string, upper bool) string {
	var b strings.Builder
	for i, w := range strings.Split(s, "_") {
		if w == "" {
			continue
		}
		if i > 0 || upper {
			w = strings.ToUpper(w[:1]) + w[1:]
		}
		b.WriteString(w)
	}
	return b.String()
}

func squash(s string) string {
	return strings.ToLower(strings.NewReplacer("_", "", "-", "", ".", "", " ", "").Replace(s))
}

// camelOK says whether got is the camel case of name: exactly for plain snake
// case names, up to letter case for the others.
func camelOK(got, name string, upper bool) bool {
	if plainSnake.MatchString(name) {
		return got == camel(name, upper)
	}
	if squash(got) != squash(name) || got == "" || strings.Contains(got, "_") && !strings.HasPrefix(got, "_") {
		return false
	}
	if upper && got[0] >= 'a' && got[0] <= 'z' {
		return false
	}
	return true
}

type nameOpt struct {
	remove   []string
	prefix   map[string]string // by group; "*" = all
	useClass bool
}

// classOK says whether got is the class name of the table.
func classOK(got string, t *Table, o nameOpt) bool {
	if o.useClass && t.ClassName != "" {
		return got == t.ClassName
	}
	n := t.Name
	for _, p := range o.remove {
		if p != "" {
			n = strings.TrimPrefix(n, p)
		}
	}
	p, ok := o.prefix["*"]
	if !ok {
		p = o.prefix[t.Group]
	}
	if !strings.HasPrefix(got, p) {
		return false
	}
	return camelOK(got[len(p):], n, true)
}

// bijection checks that every table has its own class name and returns the names.
func sameUpToDup(names []string) bool {
	m := map[string]bool{}
	for _, n := range names {
		if m[n] {
			return true
		}
		m[n] = true
	}
	return false
}

var identRe = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)

// clash says that the camel case names of two columns of the table are one, so
// that a generator has to invent a name of its own for one of them.
func clash(t *Table) bool {
	cs := map[string]bool{}
	for _, c := range t.Columns {
		k := squash(c.Name)
		if cs[k] || cs[strings.TrimRight(k, "0123456789")] {
			return true
		}
		cs[k] = true
	}
	return false
}

// fieldOK says whether got is a name for column col of table t: what plain asks
// for, or where names clash, the name with underscores or digits behind it.
func fieldOK(got string, t *Table, col string, plain func(got string) bool) bool {
	if plain(got) {
		return true
	}
	if !clash(t) || !identRe.MatchString(got) {
		return false
	}
	g, w := squash(got), squash(col)
	return strings.HasPrefix(g, w) && strings.Trim(g[len(w):], "0123456789") == ""
}

// camelDistinct says that the camel case names of the tables are distinct
// (otherwise generators cannot give each its own name), and the names of each
// table's columns other than in letter case.
func camelDistinct(s *Schema) bool {
	ts, cl := map[string]bool{}, map[string]bool{}
	for _, t := range s.Tables {
		n := squash(t.Name)
		if t.ClassName != "" {
			n = squash(t.ClassName)
		}
		if cl[n] || ts[squash(t.Name)] || n == "query" || n == "string" {
			return false
		}
		cl[n], ts[squash(t.Name)] = true, true
		cs := map[string]bool{}
		for _, c := range t.Columns {
			k := strings.ToLower(c.Name)
			if cs[k] {
				return false
			}
			cs[k] = true
		}
	}
	return true
}

func genAble(s *Schema) bool { return saneSchema(s) && camelDistinct(s) }
