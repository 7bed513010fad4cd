package main

import (
	"fmt"
	"strings"
)

// An Op is one transition of the model: a single edit of the schema document.
type Op struct {
	Name  string
	Apply func(*Schema)
}

// Alphabet bounds the edits. Every value is tried at every position.
type Alphabet struct {
	Types     []string
	Sizes     [][2]int
	Flags     string // subset of "npua"
	Defaults  []string
	OnUpdates []string
	Descs     []string
	ColNames  []string
	TblNames  []string
	Groups    []string
	Classes   []string
	Refs      []Ref // Table "*" = first table, "=" = own table
	Values    [][]string
	TblDescs  []string
	Structure bool // add/drop/move columns, add/drop tables, move tables
	Indices   bool
	Meta      bool
	Near      bool // values close to the present ones: other letter case, one character less or more
	ColFilter func(s *Schema, ti, ci int) bool
	TblFilter func(s *Schema, ti int) bool
}

func (a *Alphabet) Ops(s *Schema) []Op {
	var ops []Op
	add := func(n string, f func(*Schema)) { ops = append(ops, Op{n, f}) }
	for ti, t := range s.Tables {
		ti, t := ti, t
		if a.TblFilter != nil && !a.TblFilter(s, ti) {
			continue
		}
		for ci, c := range t.Columns {
			ci, c := ci, c
			if a.ColFilter != nil && !a.ColFilter(s, ti, ci) {
				continue
			}
			p := t.Name + "." + c.Name
			set := func(n string, f func(*Col)) {
				add(p+n, func(s *Schema) { f(s.Tables[ti].Columns[ci]) })
			}
			for _, ty := range a.Types {
				ty := ty
				if ty == c.Type {
					continue
				}
				set(".type="+ty, func(c *Col) {
					c.Type = ty
					ct := canonType(ty)
					if ct == "enum" || ct == "set" {
						if len(c.Values) == 0 {
							c.Values = []string{"a", "b"}
						}
					} else {
						c.Values = nil
					}
				})
			}
			for _, sz := range a.Sizes {
				sz := sz
				if sz[0] != c.Size || sz[1] != c.Scale {
					set(fmt.Sprintf(".size=%d,%d", sz[0], sz[1]), func(c *Col) { c.Size, c.Scale = sz[0], sz[1] })
				}
			}
			for _, f := range a.Flags {
				switch f {
				case 'n':
					set(".notnull^", func(c *Col) { c.NotNull = !c.NotNull })
				case 'p':
					set(".pk^", func(c *Col) { c.PK = !c.PK })
				case 'u':
					set(".unique^", func(c *Col) { c.Unique = !c.Unique })
				case 'a':
					set(".autoinc^", func(c *Col) { c.AutoInc = !c.AutoInc })
				}
			}
			for _, d := range a.near(a.Defaults, c.Default, c.Name, c.Desc) {
				d := d
				if d != c.Default {
					set(fmt.Sprintf(".default=%q", d), func(c *Col) { c.Default = d })
				}
			}
			for _, d := range a.with(a.OnUpdates, c.Default) {
				d := d
				if d != c.OnUpdate {
					set(fmt.Sprintf(".onupdate=%q", d), func(c *Col) { c.OnUpdate = d })
				}
			}
			for _, d := range a.near(a.Descs, c.Desc, c.Name, t.Name, c.Default) {
				d := d
				if d != c.Desc {
					set(fmt.Sprintf(".desc=%q", d), func(c *Col) { c.Desc = d })
				}
			}
			for _, n := range a.ColNames {
				n := n
				if t.Col(n) == nil {
					add(p+".name="+n, func(s *Schema) { s.Tables[ti].Columns[ci].Name = n })
				}
			}
			for _, v := range a.nearValues(c.Values) {
				v := v
				if ct := canonType(c.Type); (ct == "enum" || ct == "set") && strings.Join(v, "|") != strings.Join(c.Values, "|") {
					set(fmt.Sprintf(".values=%q", v), func(c *Col) { c.Values = append([]string{}, v...) })
				}
			}
			for _, r := range a.Refs {
				r := r
				switch r.Table {
				case "*":
					r.Table = s.Tables[0].Name
				case "=":
					r.Table = t.Name
				case "$":
					r.Table = s.Tables[len(s.Tables)-1].Name
				case "^": // a name that differs from a table's in letter case only
					if r.Table = strings.ToUpper(s.Tables[0].Name); r.Table == s.Tables[0].Name {
						r.Table = strings.ToLower(r.Table)
					}
				}
				if r.Column == "*" {
					if tt := s.Table(r.Table); tt != nil && len(tt.Columns) > 0 {
						r.Column = tt.Columns[0].Name
					} else {
						r.Column = "id"
					}
				}
				if r.Column == "^" {
					r.Column = "ID"
					if tt := s.Table(r.Table); tt != nil && len(tt.Columns) > 0 {
						if n := tt.Columns[0].Name; n != strings.ToUpper(n) {
							r.Column = strings.ToUpper(n)
						} else {
							r.Column = strings.ToLower(n)
						}
					}
				}
				if r.Table == "" {
					if c.Ref != nil {
						set(".ref=none", func(c *Col) { c.Ref = nil })
					}
				} else if c.Ref == nil || *c.Ref != r {
					set(fmt.Sprintf(".ref=%s.%s %s", r.Table, r.Column, r.Relationship), func(c *Col) { x := r; c.Ref = &x })
				}
			}
			if a.Structure {
				add(p+".drop", func(s *Schema) {
					t := s.Tables[ti]
					t.Columns = append(t.Columns[:ci], t.Columns[ci+1:]...)
				})
				if ci > 0 {
					add(p+".up", func(s *Schema) {
						cs := s.Tables[ti].Columns
						cs[ci-1], cs[ci] = cs[ci], cs[ci-1]
					})
				}
			}
			if a.Indices {
				add(p+".index", func(s *Schema) {
					t := s.Tables[ti]
					t.Indices = append(t.Indices, &Index{Name: fmt.Sprintf("idx%d_%s", len(t.Indices), c.Name), Columns: []string{c.Name}})
				})
				if ci > 0 {
					add(p+".index2", func(s *Schema) {
						t := s.Tables[ti]
						t.Indices = append(t.Indices, &Index{Name: fmt.Sprintf("idx%d_%s2", len(t.Indices), c.Name), Columns: []string{c.Name, t.Columns[ci-1].Name}})
					})
				}
			}
		}
		p := t.Name
		for _, d := range a.near(a.TblDescs, t.Desc, t.Name, t.Group) {
			d := d
			if d != t.Desc {
				add(fmt.Sprintf("%s.desc=%q", p, d), func(s *Schema) { s.Tables[ti].Desc = d })
			}
		}
		for _, g := range a.with(a.Groups, t.Name) {
			g := g
			if g != t.Group {
				add(p+".group="+g, func(s *Schema) { s.Tables[ti].Group = g })
			}
		}
		names := []string{t.Name, strings.ToUpper(t.Name)}
		if ti > 0 {
			names = append(names, s.Tables[0].Name, s.Tables[0].ClassName)
		} else if len(s.Tables) > 1 {
			names = append(names, s.Tables[1].Name, s.Tables[1].ClassName)
		}
		for _, g := range a.with(a.Classes, names...) {
			g := g
			if g != t.ClassName {
				add(p+".className="+g, func(s *Schema) { s.Tables[ti].ClassName = g })
			}
		}
		for _, n := range a.TblNames {
			n := n
			if s.Table(n) == nil {
				add(p+".name="+n, func(s *Schema) { s.Tables[ti].Name = n })
			}
		}
		if a.Structure {
			for _, pos := range []int{0, 1, len(t.Columns)} {
				pos := pos
				if pos > len(t.Columns) || (pos == 1 && len(t.Columns) == 1) || (pos == 0 && len(t.Columns) == 0) {
					continue
				}
				add(fmt.Sprintf("%s.addcol@%d", p, pos), func(s *Schema) {
					t := s.Tables[ti]
					n := fmt.Sprintf("added%d", len(t.Columns))
					for t.Col(n) != nil {
						n += "x"
					}
					nc := &Col{Name: n, Type: "varchar", Size: 20, NotNull: true, Default: "x", Desc: "new col"}
					cs := append([]*Col{}, t.Columns[:pos]...)
					cs = append(cs, nc)
					t.Columns = append(cs, t.Columns[pos:]...)
				})
			}
			add(p+".droptable", func(s *Schema) { s.Tables = append(s.Tables[:ti], s.Tables[ti+1:]...) })
			if ti > 0 {
				add(p+".uptable", func(s *Schema) { s.Tables[ti-1], s.Tables[ti] = s.Tables[ti], s.Tables[ti-1] })
			}
		}
		if a.Indices && a.Near {
			seen := map[string]bool{}
			for _, ix := range t.Indices {
				seen[ix.Name] = true
			}
			if len(t.Columns) > 0 {
				for _, n := range []string{t.Name, t.Columns[0].Name, t.Columns[len(t.Columns)-1].Name} {
					if !seen[n] {
						seen[n] = true
						add(p+".indexnamed="+n, func(s *Schema) {
							t := s.Tables[ti]
							t.Indices = append(t.Indices, &Index{Name: n, Columns: []string{t.Columns[len(t.Columns)-1].Name}})
						})
					}
				}
			}
			for _, o := range s.Tables {
				for _, ix := range o.Indices {
					if n := ix.Name; !seen[n] && len(t.Columns) > 0 {
						seen[n] = true
						add(p+".sameindex="+n, func(s *Schema) {
							t := s.Tables[ti]
							t.Indices = append(t.Indices, &Index{Name: n, Columns: []string{t.Columns[len(t.Columns)-1].Name}})
						})
					}
				}
			}
		}
		if a.Indices && len(t.Indices) > 0 {
			if last := t.Indices[len(t.Indices)-1]; a.Near && len(last.Columns) > 1 {
				add(p+".turnindex", func(s *Schema) {
					cs := s.Tables[ti].Indices[len(s.Tables[ti].Indices)-1].Columns
					cs[0], cs[1] = cs[1], cs[0]
				})
			}
			add(p+".dropindex", func(s *Schema) { t := s.Tables[ti]; t.Indices = t.Indices[:len(t.Indices)-1] })
		}
	}
	if a.Structure {
		add("addtable", func(s *Schema) {
			n := fmt.Sprintf("extra%d", len(s.Tables))
			for s.Table(n) != nil {
				n += "x"
			}
			s.Tables = append(s.Tables, &Table{Name: n, Desc: "extra table", Columns: []*Col{
				{Name: "id", Type: "int64", PK: true, AutoInc: true, NotNull: true},
				{Name: "label", Type: "varchar", Size: 30, Unique: true}}})
		})
	}
	if a.Meta {
		for _, v := range []string{"", "2.1.0"} {
			v := v
			add("version="+v, func(s *Schema) { s.Version = v })
		}
		add("author=bob", func(s *Schema) { s.Author = "bob" })
		add("name=shop", func(s *Schema) { s.Name = "shop" })
		if a.Near {
			for _, v := range []string{"shop", s.Version, s.Author} {
				if v != "" {
					add("name=version="+v, func(s *Schema) { s.Name, s.Version = v, v })
					add("author=version="+v, func(s *Schema) { s.Author, s.Version = v, v })
					add("name=author="+v, func(s *Schema) { s.Author, s.Name = v, v })
				}
			}
		}
	}
	return ops
}

// with adds the present texts of other attributes to the values of one.
func (a *Alphabet) with(vals []string, other ...string) []string {
	if !a.Near || len(vals) == 0 {
		return vals
	}
	r := append([]string{}, vals...)
	for _, v := range other {
		if v != "" && !contains(r, v) {
			r = append(r, v)
		}
	}
	return r
}

// near adds the neighbours of the present text to the values of an attribute,
// and the texts of other attributes.
func (a *Alphabet) near(vals []string, now string, other ...string) []string {
	if !a.Near {
		return vals
	}
	r := a.with(vals, other...)
	if now == "" || strings.HasPrefix(now, "fn::") {
		return r
	}
	up := strings.ToUpper(now)
	if up == now {
		up = strings.ToLower(now)
	}
	ru := []rune(now)
	for _, v := range []string{up, string(ru[:len(ru)-1]), now + string(ru[:1])} {
		if v != now && !contains(r, v) {
			r = append(r, v)
		}
	}
	return r
}

func (a *Alphabet) nearValues(now []string) [][]string {
	if !a.Near || len(now) == 0 {
		return a.Values
	}
	r := append([][]string{}, a.Values...)
	r = append(r, append(append([]string{}, now...), "zz"), append([]string{"0"}, now...))
	if len(now) > 1 {
		sw := append([]string{}, now...)
		sw[0], sw[1] = sw[1], sw[0]
		r = append(r, now[:len(now)-1], sw)
	}
	if u := strings.ToUpper(now[0]); u != now[0] {
		r = append(r, append([]string{u}, now[1:]...))
	}
	return r
}
