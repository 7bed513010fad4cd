package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

func xlsxAble(s *Schema) bool {
	if !saneSchema(s) {
		return false
	}
	for _, t := range s.Tables {
		if t.Group == "Meta" {
			return false
		}
		for _, c := range t.Columns {
			ct := canonType(c.Type)
			if ct == "enum" || ct == "set" || c.PK && c.Unique {
				return false
			}
			if strings.Contains(c.Default, ",") || strings.TrimSpace(c.Default) != c.Default || strings.Contains(c.OnUpdate, ",") {
				return false
			}
		}
	}
	return true
}

// xlsxWant is the schema a workbook of s stands for.
func xlsxWant(s *Schema) *Schema {
	w := s.Clone()
	for _, t := range w.Tables {
		if t.Group == "" {
			t.Group = "Common"
		}
		t.Desc = strings.TrimSpace(t.Desc)
		for _, c := range t.Columns {
			c.Desc = strings.TrimSpace(c.Desc)
			if c.Ref != nil && c.Ref.Relationship != "1:1" && c.Ref.Relationship != "1:n" {
				c.Ref.Relationship = "n:1"
			}
			if ct := canonType(c.Type); ct != "enum" && ct != "set" {
				c.Values = nil
			}
		}
	}
	return Norm(w)
}

func evalC06(r *Runner, c *Case) []Finding {
	r.PutSchema("in.json", c.S)
	want := xlsxWant(c.S)
	for _, null := range []bool{false, true} {
		args := []string{"export", "xlsx", "-i", "in.json", "-o", "b.xlsx"}
		if null {
			args = append(args, "--useNullColumn")
		}
		book, f := mustRun(r, "b.xlsx", args...)
		if f != nil {
			return f
		}
		if f := checkBook([]byte(book), want, null); f != nil {
			return f
		}
		out, f := mustRun(r, "o.json", "import", "xlsx", "-i", "b.xlsx", "-o", "o.json")
		if f != nil {
			if strings.Contains(f[0].Msg, "empty enum values") || strings.Contains(f[0].Msg, "set member count") {
				f[0].Sig = "enum-set-values-lost"
			}
			return f
		}
		got, err := parseSchema([]byte(out))
		if err != nil {
			return finding("output-json", "%v", err)
		}
		if f := diffSchemas(got, want, ""); f != nil {
			return f
		}
	}
	return nil
}

// readBook reads a workbook the way docs/xlsx.md describes it. It gives up (ok
// false) on notations which leave room, such as padding.
func readBook(sheets []sheetData) (s *Schema, nullable map[string]bool, err error) {
	s, nullable = &Schema{}, map[string]bool{}
	for _, sh := range sheets {
		cell := func(r []string, i int) string {
			if i < len(r) {
				return r[i]
			}
			return ""
		}
		if sh.Name == "Meta" {
			for _, r := range sh.Rows {
				switch cell(r, 0) {
				case "author":
					s.Author = cell(r, 1)
				case "name":
					s.Name = cell(r, 1)
				case "version":
					s.Version = cell(r, 1)
				case "":
				default:
					return nil, nil, fmt.Errorf("meta key %q", cell(r, 0))
				}
			}
			continue
		}
		var t *Table
		for i, r := range sh.Rows {
			if i == 0 {
				if k := cell(r, 4); k != "nullable" && k != "not null" {
					return nil, nil, fmt.Errorf("sheet %q: header %q", sh.Name, r)
				}
				nullable[sh.Name] = cell(r, 4) == "nullable"
				continue
			}
			mark := cell(r, 4)
			if mark != "" && mark != "O" {
				return nil, nil, fmt.Errorf("sheet %q row %d: mark %q", sh.Name, i+1, mark)
			}
			switch {
			case strings.Join(r, "") == "":
			case cell(r, 2) == "table":
				t = &Table{Name: cell(r, 0), Group: sh.Name, Desc: cell(r, 6)}
				if a := cell(r, 5); a != "" {
					c, ok := strings.CutPrefix(a, "class=")
					if !ok {
						return nil, nil, fmt.Errorf("table %q: attributes %q", t.Name, a)
					}
					t.ClassName = c
				}
				if cell(r, 1)+cell(r, 3)+mark != "" {
					return nil, nil, fmt.Errorf("table %q: row %q", t.Name, r)
				}
				s.Tables = append(s.Tables, t)
			case t == nil:
				return nil, nil, fmt.Errorf("sheet %q row %d: no table", sh.Name, i+1)
			case cell(r, 3) == "I":
				var ix *Index
				for _, x := range t.Indices {
					if x.Name == cell(r, 0) {
						ix = x
					}
				}
				if ix == nil {
					ix = &Index{Name: cell(r, 0)}
					t.Indices = append(t.Indices, ix)
				}
				ix.Columns = append(ix.Columns, cell(r, 1))
			default:
				c := &Col{Name: cell(r, 1), Type: cell(r, 2), NotNull: (mark == "O") != nullable[sh.Name], Desc: cell(r, 6)}
				if m := bookType.FindStringSubmatch(c.Type); m != nil {
					c.Type = m[1]
					c.Size, _ = strconv.Atoi(m[2])
					c.Scale, _ = strconv.Atoi(m[3])
				}
				switch cell(r, 3) {
				case "P":
					c.PK = true
				case "U":
					c.Unique = true
				case "":
				default:
					return nil, nil, fmt.Errorf("%s.%s: key %q", t.Name, c.Name, cell(r, 3))
				}
				if ref := cell(r, 0); ref != "" {
					rel := map[byte]string{'>': "n:1", '<': "1:n", '-': "1:1"}[ref[0]]
					if rel == "" {
						rel = "n:1"
					} else {
						ref = strings.TrimSpace(ref[1:])
					}
					tn, cn, ok := strings.Cut(ref, ".")
					if !ok {
						return nil, nil, fmt.Errorf("%s.%s: reference %q", t.Name, c.Name, ref)
					}
					c.Ref = &Ref{tn, cn, rel}
				}
				if a := cell(r, 5); a != "" {
					for _, x := range strings.Split(a, ",") {
						x = strings.TrimSpace(x)
						if d, ok := strings.CutPrefix(x, "default="); ok {
							c.Default = d
						} else if d, ok := strings.CutPrefix(x, "onUpdate="); ok {
							c.OnUpdate = d
						} else if strings.EqualFold(x, "autoinc") {
							c.AutoInc = true
						} else {
							return nil, nil, fmt.Errorf("%s.%s: attribute %q", t.Name, c.Name, x)
						}
					}
				}
				t.Columns = append(t.Columns, c)
			}
		}
	}
	return s, nullable, nil
}

var bookType = regexp.MustCompile(`^(\w+)\((\d+)(?:, ?(\d+))?\)$`)

// checkBook compares the exported workbook itself with the schema.
func checkBook(data []byte, want *Schema, null bool) []Finding {
	sheets, err := readXlsx(data)
	if err != nil {
		return finding("book", "unreadable workbook: %v", err)
	}
	got, nullable, err := readBook(sheets)
	if err == nil {
		for g, n := range nullable {
			if n != null {
				return finding("book-header", "sheet %q: nullable column %v, want %v", g, n, null)
			}
		}
		want = want.Clone()
		for _, t := range want.Tables {
			for _, c := range t.Columns {
				c.Values = nil // the notation has no place for them
			}
		}
		f := diffSchemas(got, want, "")
		if f == nil {
			return nil
		}
		txt, _ := xlsxText(data)
		f[0].Sig = "book-" + f[0].Sig
		f[0].Msg = "the workbook says: " + f[0].Msg + "\n" + clip(txt, 1500)
		return f
	}
	txt, _ := xlsxText(data)
	return finding("book", "%v\n%s", err, clip(txt, 1500))
}

// ---- C07 --------------------------------------------------------------------

// style vector: 0 header (0 not null, 1 nullable, 2 and 3 alternating between sheets), 1 ref mark spacing, 2 attribute spelling, 3 separator,
// 4 type spelling, 5 blank rows, 6 index rows place, 7 meta, 8 sheet order,
// 9 padding, 10 short rows, 11 string storage, 12 attr order, 13 junk row
var xlsxRadix = []int{4, 2, 2, 2, 3, 2, 2, 4, 2, 2, 2, 2, 2, 2}

func renderXlsx(s *Schema, v []int) []byte {
	pad := func(x string) string {
		if v[9] == 1 && x != "" {
			return " " + x + "  "
		}
		return x
	}
	mark := func(b bool) string {
		if b {
			return pad("O")
		}
		return ""
	}
	short := func(row []string) []string {
		if v[10] == 1 {
			for len(row) > 0 && row[len(row)-1] == "" {
				row = row[:len(row)-1]
			}
		}
		return row
	}
	var groups []string
	nullable := map[string]bool{}
	rows := map[string][][]string{}
	for _, t := range s.Tables {
		g := t.Group
		if _, ok := rows[g]; !ok {
			nullable[g] = v[0] == 1 || v[0] == 2 && len(groups)%2 == 1 || v[0] == 3 && len(groups)%2 == 0
			groups = append(groups, g)
			h := "not null"
			if nullable[g] {
				h = "nullable"
			}
			rows[g] = [][]string{{"table/ref.", "column", "type", "key", pad(h), "attributes", "description"}}
			if v[13] == 1 {
				rows[g] = append(rows[g], short([]string{"a remark", "", "", "", "", "", "ignored"}))
			}
		}
		add := func(r ...string) { rows[g] = append(rows[g], short(r)) }
		if v[5] == 1 && len(rows[g]) > 1 {
			add("", "", "", "", "", "", "")
		}
		attr := ""
		if t.ClassName != "" {
			attr = "class=" + t.ClassName
		}
		add(pad(t.Name), "", pad("table"), "", "", pad(attr), pad(t.Desc))
		for ci, c := range t.Columns {
			ref := ""
			if c.Ref != nil {
				m := map[string]string{"n:1": ">", "1:n": "<", "1:1": "-"}[c.Ref.Relationship]
				if m == ">" && v[6] == 1 {
					m = "" // many to one is the default
				}
				if v[1] == 1 && m != "" {
					m += " "
				}
				ref = m + c.Ref.Table + "." + c.Ref.Column
			}
			ty := c.Type
			switch v[4] {
			case 1:
				ty = strings.ToUpper(ty)
			case 2:
				for _, a := range aliasNames() {
					if typeAlias[a] == ty {
						ty = a
						break
					}
				}
			}
			if c.Size > 0 {
				if c.Scale > 0 {
					sep := ","
					if v[3] == 1 {
						sep = ", "
					}
					ty += fmt.Sprintf("(%d%s%d)", c.Size, sep, c.Scale)
				} else {
					ty += fmt.Sprintf("(%d)", c.Size)
				}
			}
			key := ""
			if c.PK {
				key = "P"
			} else if c.Unique {
				key = "U"
			}
			var attrs []string
			if c.AutoInc {
				attrs = append(attrs, []string{"autoinc", "autoInc"}[v[2]])
			}
			if c.Default != "" {
				attrs = append(attrs, "default="+c.Default)
			}
			if c.OnUpdate != "" {
				attrs = append(attrs, "onUpdate="+c.OnUpdate)
			}
			if v[12] == 1 {
				for i, j := 0, len(attrs)-1; i < j; i, j = i+1, j-1 {
					attrs[i], attrs[j] = attrs[j], attrs[i]
				}
			}
			add(pad(ref), pad(c.Name), pad(ty), pad(key), mark(c.NotNull != nullable[g]), pad(strings.Join(attrs, []string{",", ", "}[v[3]])), pad(c.Desc))
			if v[6] == 1 && ci == len(t.Columns)/2 { // index rows between columns
				for _, ix := range t.Indices {
					for _, n := range ix.Columns {
						add(pad(ix.Name), pad(n), "", pad("I"), "", "", "")
					}
				}
			}
		}
		if v[6] == 0 {
			k := 0
			for more := true; more; k++ { // interleaved: rows of one index need not be adjacent
				more = false
				for _, ix := range t.Indices {
					if k < len(ix.Columns) {
						add(pad(ix.Name), pad(ix.Columns[k]), "", pad("I"), "", "", "")
						more = true
					}
				}
			}
		}
	}
	var sheets []sheetData
	for _, g := range groups {
		sheets = append(sheets, sheetData{g, rows[g]})
	}
	if v[8] == 1 {
		for i, j := 0, len(sheets)-1; i < j; i, j = i+1, j-1 {
			sheets[i], sheets[j] = sheets[j], sheets[i]
		}
	}
	meta := sheetData{"Meta", [][]string{{"author", s.Author}, {"name", s.Name}, {"version", s.Version}}}
	switch v[7] {
	case 0:
		sheets = append([]sheetData{meta}, sheets...)
	case 1:
		meta.Rows = [][]string{{"version", s.Version}, {"name", s.Name}, {"author", s.Author}}
		sheets = append(sheets, meta)
	case 2:
		meta.Rows = [][]string{{"version", s.Version}, {"name"}}
		sheets = append([]sheetData{meta}, sheets...)
	}
	if len(sheets) == 0 {
		sheets = append(sheets, sheetData{"Sheet1", nil})
	}
	return writeXlsx(sheets, v[11] == 1)
}

func evalC07(r *Runner, c *Case) []Finding {
	s := xlsxWant(c.S)
	for _, v := range c.X.([][]int) {
		r.Put("b.xlsx", renderXlsx(s, v))
		out, f := mustRun(r, "o.json", "import", "xlsx", "-i", "b.xlsx", "-o", "o.json")
		if f == nil {
			got, err := parseSchema([]byte(out))
			if err != nil {
				return finding("output-json", "%v", err)
			}
			w := s.Clone()
			if v[7] == 2 {
				w.Author, w.Name = "", ""
			}
			if v[7] == 3 {
				w.Author, w.Name, w.Version = "", "", ""
			}
			f = diffSchemas(got, w, "")
		}
		if f != nil {
			t, _ := xlsxText(renderXlsx(s, v))
			f[0].Msg += fmt.Sprintf("\nstyle %v\n%s", v, clip(t, 1500))
			return f
		}
	}
	return nil
}

func dropEnums(s *Schema) *Schema {
	n := s.Clone()
	for _, t := range n.Tables {
		var cs []*Col
		for _, c := range t.Columns {
			if c.Type != "enum" && c.Type != "set" {
				cs = append(cs, c)
			}
		}
		t.Columns = cs
	}
	return n
}

func init() {
	seeds := func() []Seed {
		var r []Seed
		for _, s := range stdSeeds() {
			s.S = dropEnums(s.S)
			r = append(r, s)
		}
		return r
	}
	register("C06", func(x *Ctx) {
		x.Pool(evalC06, func(emit func(*Case) bool) {
			x.states += 2
			emit(&Case{Name: "enum", S: &Schema{Tables: []*Table{{Name: "t", Columns: []*Col{{Name: "e", Type: "enum", Values: []string{"a"}}}}}}})
			emit(&Case{Name: "set", S: &Schema{Tables: []*Table{{Name: "t", Columns: []*Col{{Name: "e", Type: "set", Values: []string{"a", "b"}}}}}}})
			x.Explore(seeds(), []*Alphabet{alphaFull()}, xlsxAble, emit)
			if x.Thorough {
				x.Explore(smallSeeds(), []*Alphabet{alphaPairs(), alphaPairs(), alphaCore()}, xlsxAble, emit)
				return
			}
			x.Explore([]Seed{{"min", seedMin()}}, []*Alphabet{alphaPairs(), alphaCore()}, xlsxAble, emit)
			x.Explore([]Seed{{"two", seedTwo()}}, []*Alphabet{alphaCore(), alphaCore()}, xlsxAble, emit)
		})
	})
	register("C07", func(x *Ctx) {
		few := pairVecs(xlsxRadix)
		x.Note("layout_variants_pairwise", len(few))
		x.Pool(evalC07, func(emit func(*Case) bool) {
			for _, sd := range seeds() {
				if sd.Name == "wide" || sd.Name == "many" || sd.Name == "long" {
					continue
				}
				dev := 2 // layouts that differ from the plain one in at most dev choices
				if x.Thorough {
					dev = 5
				} else if sd.Name == "keys" {
					dev = 3
				}
				var b [][]int
				for _, v := range allVecs(xlsxRadix) {
					k := 0
					for _, y := range v {
						if y != 0 {
							k++
						}
					}
					if k > dev {
						continue
					}
					b = append(b, v)
					if len(b) == 16 {
						if !emit(&Case{Name: fmt.Sprintf("%s layouts", sd.Name), S: sd.S, X: b}) {
							return
						}
						b = nil
					}
				}
				emit(&Case{Name: fmt.Sprintf("%s layouts", sd.Name), S: sd.S, X: b})
			}
			n := 0
			x.Explore(seeds(), []*Alphabet{alphaFull()}, xlsxAble, func(c *Case) bool {
				k := n % (len(few) - 1)
				n++
				c.X = few[k : k+2]
				if x.Thorough {
					c.X = few
				}
				return emit(c)
			})
		})
	})
}
