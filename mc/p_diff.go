package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// ---- C12: Markdown --------------------------------------------------------

type mdChange struct {
	head string
	kind string
	args []string
	line string
}

var mdForms = []struct {
	kind string
	re   *regexp.Regexp
}{
	{"create-table", regexp.MustCompile(`^create table$`)},
	{"drop-table", regexp.MustCompile(`^drop table$`)},
	{"rename-table", regexp.MustCompile("^rename table `([^`]*)` → `([^`]*)`$")},
	{"pk", regexp.MustCompile(`^update PK: \[(.*)\] → \[(.*)\]$`)},
	{"create-unique", regexp.MustCompile(`^create unique constraint: \[(.*)\]$`)},
	{"drop-unique", regexp.MustCompile(`^drop unique constraint: \[(.*)\]$`)},
	{"table-comment", regexp.MustCompile("(?s)^update table comment: `(.*)`$")},
	{"add-column", regexp.MustCompile("^add column: `(.*)`$")},
	{"drop-column", regexp.MustCompile("^drop column: `(.*)`$")},
	{"column-comment", regexp.MustCompile("(?s)^update column comment: `([^`]*)` :`(.*)`$")},
	{"type", regexp.MustCompile("^change column type: `(.*)` :`(.*)` → `(.*)`$")},
	{"rename-column", regexp.MustCompile("^rename column: `(.*)` → `(.*)`$")},
	{"notnull", regexp.MustCompile("^set not null: `(.*)`$")},
	{"nullable", regexp.MustCompile("^set nullable: `(.*)`$")},
	{"autoinc", regexp.MustCompile("^set auto incremental: `(.*)`$")},
	{"noautoinc", regexp.MustCompile("^remove auto incremental: `(.*)`$")},
	{"nodefault", regexp.MustCompile("^remove default value: `(.*)`$")},
	{"default", regexp.MustCompile("(?s)^update default value: `([^`]*)` : `(.*)`$")},
}

// mdSpace is what a reader of a code span sees as one space.
var mdSpace = regexp.MustCompile(`\s+`)

func parseMD(src string) (from, to string, cs []mdChange, err error) {
	var lines []string
	for _, l := range strings.Split(src, "\n") {
		// a code span goes on in the next line of the list item
		if k := len(lines) - 1; k >= 0 && strings.HasPrefix(lines[k], "* ") && strings.Count(lines[k], "`")%2 == 1 &&
			l != "" && !strings.HasPrefix(l, "* ") && !strings.HasPrefix(l, "#") {
			lines[k] += "\n" + l
			continue
		}
		lines = append(lines, l)
	}
	head := ""
	heads := map[string]bool{}
	seenF, seenT := false, false
	for i, l := range lines {
		switch {
		case l == "" || i == 0 && l == "# DB Schema changes":
		case strings.HasPrefix(l, "## "):
			head = l[3:]
			if heads[head] {
				return "", "", nil, fmt.Errorf("heading %q repeated", head)
			}
			heads[head] = true
		case head == "" && strings.HasPrefix(l, "* from: `") && !seenF:
			from, seenF = strings.TrimSuffix(l[9:], "`"), true
		case head == "" && strings.HasPrefix(l, "* to: `") && !seenT:
			to, seenT = strings.TrimSuffix(l[7:], "`"), true
		case head != "" && strings.HasPrefix(l, "* "):
			ok := false
			for _, f := range mdForms {
				if m := f.re.FindStringSubmatch(l[2:]); m != nil {
					cs = append(cs, mdChange{head, f.kind, m[1:], l[2:]})
					ok = true
					break
				}
			}
			if !ok {
				return "", "", nil, fmt.Errorf("unknown line %q", l)
			}
		default:
			return "", "", nil, fmt.Errorf("unexpected line %q", l)
		}
	}
	if !seenF || !seenT {
		return "", "", nil, fmt.Errorf("versions are not listed")
	}
	return
}

func fmtType(c *Col) string {
	if c.Size == 0 {
		return c.Type
	}
	if c.Scale == 0 {
		return fmt.Sprintf("%s(%d)", c.Type, c.Size)
	}
	return fmt.Sprintf("%s(%d,%d)", c.Type, c.Size, c.Scale)
}

func sameValues(a, b *Col) bool {
	return !hasValues(a) || !hasValues(b) || fmt.Sprintf("%q", a.Values) == fmt.Sprintf("%q", b.Values)
}

// withoutValues reduces a type with the value list of the column to the type.
func withoutValues(s string, c *Col) string {
	if !hasValues(c) {
		return s
	}
	plain := strings.NewReplacer("'", "", "\"", "", "\\", "", " ", "")
	if plain.Replace(s) == plain.Replace(c.Type+"("+strings.Join(c.Values, ",")+")") {
		return fmtType(c)
	}
	return s
}

// renameable says that two columns differ in nothing but the name (and the
// attributes diffs do not cover).
func renameable(a, b *Col, comments, uncoveredToo bool) bool {
	x, y := a.Clone(), b.Clone()
	x.Name, y.Name = "", ""
	if !comments {
		x.Desc, y.Desc = "", ""
	}
	if !uncoveredToo {
		x.Ref, y.Ref, x.OnUpdate, y.OnUpdate = nil, nil, "", ""
		for _, c := range []*Col{x, y} {
			if !hasValues(c) {
				c.Values = nil
			}
		}
	}
	return tableJSON(&Table{Columns: []*Col{x}}) == tableJSON(&Table{Columns: []*Col{y}})
}

func sameColumns(a, b *Table) bool {
	return tableJSON(&Table{Columns: a.Columns}) == tableJSON(&Table{Columns: b.Columns})
}

func bracket(s string) []string {
	if s == "" {
		return []string{}
	}
	return strings.Split(s, ", ")
}

func checkMD(src string, a, b *Schema, comments bool) []Finding {
	tail := "\n" + clip(src, 1500)
	from, to, cs, err := parseMD(src)
	if err != nil {
		return finding("md-format", "%v%s", err, tail)
	}
	if from != a.Version || to != b.Version {
		return finding("versions", "versions %q -> %q, want %q -> %q", from, to, a.Version, b.Version)
	}
	// table renames
	ren := map[string]string{}
	rev := map[string]string{}
	for _, c := range cs {
		if c.kind == "rename-table" {
			o, n := c.args[0], c.args[1]
			ot, nt := a.Table(o), b.Table(n)
			if c.head != o && c.head != n || ot == nil || nt == nil || a.Table(n) != nil || b.Table(o) != nil || ren[o] != "" || rev[n] != "" || !sameColumns(ot, nt) {
				return finding("rename-table", "wrong rename %q%s", c.line, tail)
			}
			ren[o], rev[n] = n, o
		}
	}
	for _, o := range a.Tables {
		if b.Table(o.Name) != nil || ren[o.Name] != "" {
			continue
		}
		for _, n := range b.Tables {
			if a.Table(n.Name) == nil && rev[n.Name] == "" && sameColumns(o, n) {
				return finding("rename-missed", "table %q was renamed to %q%s", o.Name, n.Name, tail)
			}
		}
	}
	required := map[string]bool{}
	optional := map[string]bool{}
	key := func(head, kind string, args ...string) string {
		return head + "\x00" + kind + "\x00" + mdSpace.ReplaceAllString(strings.Join(args, "\x00"), " ")
	}
	req := func(head, kind string, args ...string) { required[key(head, kind, args...)] = true }
	opt := func(head, kind string, args ...string) { optional[key(head, kind, args...)] = true }
	var both [][2]string // a constraint dropped for a renamed column or table is created again
	set := func(cols []*Col) string { return strings.Join(sortedCopy(names(cols)), ", ") }
	for _, o := range a.Tables {
		if b.Table(o.Name) == nil && ren[o.Name] == "" {
			req(o.Name, "drop-table")
		}
		if n := ren[o.Name]; n != "" {
			req("", "rename-table", o.Name, n)
			nt := b.Table(n)
			if u := set(o.Uniques()); u != "" {
				opt(o.Name, "drop-unique", u)
				opt(n, "create-unique", u)
				both = append(both, [2]string{key(o.Name, "drop-unique", u), key(n, "create-unique", u)})
			}
			if comments && o.Desc != nt.Desc {
				req(n, "table-comment", nt.Desc)
			}
		}
	}
	for _, n := range b.Tables {
		o := a.Table(n.Name)
		if o == nil {
			if rev[n.Name] == "" {
				req(n.Name, "create-table")
			}
			continue
		}
		h := n.Name
		cren := map[string]string{}
		crev := map[string]string{}
		for _, c := range cs {
			if c.head == h && c.kind == "rename-column" {
				x, y := c.args[0], c.args[1]
				if o.Col(x) == nil || n.Col(y) == nil || o.Col(y) != nil || n.Col(x) != nil || cren[x] != "" || crev[y] != "" || !renameable(o.Col(x), n.Col(y), comments, false) {
					return finding("rename-column", "wrong rename %q in %q%s", c.line, h, tail)
				}
				cren[x], crev[y] = y, x
				req(h, "rename-column", x, y)
			}
		}
		for _, x := range o.Columns {
			if n.Col(x.Name) != nil || cren[x.Name] != "" {
				continue
			}
			req(h, "drop-column", x.Name)
			for _, y := range n.Columns {
				if o.Col(y.Name) == nil && crev[y.Name] == "" && renameable(x, y, comments, true) {
					return finding("rename-missed", "column %q of %q was renamed to %q%s", x.Name, h, y.Name, tail)
				}
			}
		}
		if comments && n.Desc != o.Desc {
			req(h, "table-comment", n.Desc)
		}
		for _, y := range n.Columns {
			x := o.Col(y.Name)
			if x == nil {
				if crev[y.Name] == "" {
					req(h, "add-column", y.Name)
				}
				continue
			}
			if fmtType(x) != fmtType(y) || !sameValues(x, y) {
				req(h, "type", y.Name, fmtType(x), fmtType(y))
			} else if x.Size != y.Size || x.Scale != y.Scale {
				opt(h, "type", y.Name, fmtType(x), fmtType(y))
			}
			if comments && x.Desc != y.Desc {
				req(h, "column-comment", y.Name, y.Desc)
			}
			if x.NotNull != y.NotNull {
				req(h, map[bool]string{true: "notnull", false: "nullable"}[y.NotNull], y.Name)
			}
			if x.AutoInc != y.AutoInc {
				req(h, map[bool]string{true: "autoinc", false: "noautoinc"}[y.AutoInc], y.Name)
			}
			if x.Default != y.Default {
				if y.Default == "" {
					req(h, "nodefault", y.Name)
				} else {
					req(h, "default", y.Name, y.Default)
				}
			}
		}
		mapped := func(l []string) []string {
			var r []string
			for _, s := range l {
				if cren[s] != "" {
					s = cren[s]
				}
				r = append(r, s)
			}
			return r
		}
		op, np := names(o.PKs()), names(n.PKs())
		if !sameSet(mapped(op), np) {
			req(h, "pk", set(o.PKs()), set(n.PKs()))
		} else if !sameSet(op, np) {
			opt(h, "pk", set(o.PKs()), set(n.PKs()))
		}
		ou, nu := names(o.Uniques()), names(n.Uniques())
		add := opt
		if !sameSet(mapped(ou), nu) {
			add = req
		}
		if !sameSet(ou, nu) {
			if len(ou) > 0 {
				add(h, "drop-unique", set(o.Uniques()))
			}
			if len(nu) > 0 {
				add(h, "create-unique", set(n.Uniques()))
			}
			if len(ou) > 0 && len(nu) > 0 {
				both = append(both, [2]string{key(h, "drop-unique", set(o.Uniques())), key(h, "create-unique", set(n.Uniques()))})
			}
		}
	}
	seen := map[string]bool{}
	for _, c := range cs {
		h, args := c.head, append([]string{}, c.args...)
		switch c.kind {
		case "rename-table":
			h = ""
		case "type":
			if o, n := a.Table(h), b.Table(h); o != nil && n != nil && o.Col(args[0]) != nil && n.Col(args[0]) != nil {
				x, y := o.Col(args[0]), n.Col(args[0])
				if args[1] == args[2] && !sameValues(x, y) {
					return finding("md-values", "%q under %q does not tell the values%s", c.line, c.head, tail)
				}
				args[1], args[2] = withoutValues(args[1], x), withoutValues(args[2], y)
			}
		case "pk", "create-unique", "drop-unique":
			for i := range args {
				args[i] = strings.Join(sortedCopy(bracket(args[i])), ", ")
			}
		}
		k := key(h, c.kind, args...)
		if seen[k] {
			return finding("md-repeated", "%q repeated under %q%s", c.line, c.head, tail)
		}
		seen[k] = true
		if !required[k] && !optional[k] {
			return finding("md-extra:"+c.kind, "%q under %q is not a change%s", c.line, c.head, tail)
		}
	}
	for _, p := range both {
		if seen[p[0]] != seen[p[1]] {
			return finding("md-unique-half", "%q: dropped %v, created %v%s", strings.Split(p[1], "\x00"), seen[p[0]], seen[p[1]], tail)
		}
	}
	var ks []string
	for k := range required {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if !seen[k] {
			return finding("md-missing:"+strings.Split(k, "\x00")[1], "change %q is not reported%s", strings.Split(k, "\x00"), tail)
		}
	}
	return nil
}

func allGroups(a, b *Schema) []string {
	return groupsOf(&Schema{Tables: append(append([]*Table{}, a.Tables...), b.Tables...)})
}

func evalC12(r *Runner, c *Case) []Finding {
	r.PutSchema("a.json", c.S)
	r.PutSchema("b.json", c.T)
	a, b := Norm(c.S), Norm(c.T)
	for _, cm := range []bool{false, true} {
		args := []string{"diff", "md", "-f", "a.json", "-t", "b.json", "-o", "o.md"}
		if cm {
			args = append(args, "-c")
		}
		out, f := mustRun(r, "o.md", args...)
		if f != nil {
			return f
		}
		if f := checkMD(out, a, b, cm); f != nil {
			return f
		}
		if c.Heavy && !movedGroup(a, b) {
			for _, g := range allGroups(a, b) {
				out, f := mustRun(r, "o.md", append(args, "-g", g)...)
				if f != nil {
					return f
				}
				if f := checkMD(out, Filter(a, []string{g}), Filter(b, []string{g}), cm); f != nil {
					f[0].Sig = "group-" + f[0].Sig
					return f
				}
			}
		}
	}
	return nil
}

// ---- C13: Flyway ------------------------------------------------------------

// checkFlyway executes the script on a database holding a. Differences that
// consist in the script leaving out a whole kind of change get the signature
// "omitted:<kind>"; everything else is a violation of its own.
func checkFlyway(src string, a, b *Schema, suffix string, comments bool) []Finding {
	tail := "\n" + clip(src, 1500)
	stmts, err := parseSQL(src)
	if err != nil {
		return finding("sql-syntax", "not valid MySQL: %v%s", err, tail)
	}
	// columns the diff may regard as renamed (the script then has no statement for them)
	mayRename := map[string]bool{}
	for _, n := range b.Tables {
		if o := a.Table(n.Name); o != nil {
			for _, x := range o.Columns {
				for _, y := range n.Columns {
					if n.Col(x.Name) == nil && o.Col(y.Name) == nil && renameable(x, y, comments, false) {
						mayRename[n.Name+"."+y.Name] = true
					}
				}
			}
		}
	}
	omit := map[string]string{}
	type tstate struct {
		from  *Table           // the old table it started as
		cols  map[string]*Col  // old columns still as they were
		decl  map[string]*DCol // columns the script declared
		pk    []string
		fresh *DTable
		added []string // added columns in the order they stand in the table
	}
	db := map[string]*tstate{}
	for _, t := range a.Tables {
		st := &tstate{from: t, cols: map[string]*Col{}, decl: map[string]*DCol{}, pk: names(t.PKs())}
		for _, c := range t.Columns {
			st.cols[c.Name] = c
		}
		db[t.Name] = st
	}
	for _, s := range stmts {
		st := db[s.Table]
		if s.Kind != "create" && st == nil {
			return finding("sql-not-applicable", "%s: no table %q%s", s.Kind, s.Table, tail)
		}
		has := func(n string) bool { return st.cols[n] != nil || st.decl[n] != nil }
		if o, n := a.Table(s.Table), b.Table(s.Table); o != nil && n != nil && sameTable(o, n, comments) {
			return finding("sql-void", "%s on table %q, which did not change%s", s.Kind, s.Table, tail)
		}
		switch s.Kind {
		case "create":
			if st != nil {
				return finding("sql-not-applicable", "table %q exists already%s", s.Table, tail)
			}
			db[s.Table] = &tstate{fresh: s.T}
		case "drop":
			delete(db, s.Table)
		case "rename":
			if db[s.To] != nil {
				return finding("sql-not-applicable", "table %q exists already%s", s.To, tail)
			}
			db[s.To] = st
			delete(db, s.Table)
		case "droppk":
			if len(st.pk) == 0 {
				return finding("sql-not-applicable", "table %q has no primary key to drop%s", s.Table, tail)
			}
			st.pk = nil
		case "addpk":
			if len(st.pk) > 0 {
				return finding("sql-not-applicable", "table %q has a primary key already%s", s.Table, tail)
			}
			for _, n := range s.Cols {
				if !has(n) {
					if mayRename[s.Table+"."+n] {
						omit["rename-column"] = fmt.Sprintf("%s.%s does not exist when it becomes a primary key column: its rename is not in the script", s.Table, n)
						continue
					}
					return finding("sql-not-applicable", "no column %q in %q%s", n, s.Table, tail)
				}
			}
			st.pk = s.Cols
		case "addcol":
			if has(s.Col.Name) {
				return finding("sql-not-applicable", "column %q exists already%s", s.Col.Name, tail)
			}
			if nt := b.Table(s.Table); nt == nil || nt.Col(s.Col.Name) == nil {
				return finding("sql-extra", "column %q is not in the new schema%s", s.Col.Name, tail)
			}
			st.decl[s.Col.Name] = s.Col
			at := len(st.added)
			if s.To == "\x00first" {
				at = 0
			} else if s.To != "" {
				if !has(s.To) {
					return finding("sql-not-applicable", "no column %q in %q%s", s.To, s.Table, tail)
				}
				at = 0
				for i, n := range st.added {
					if n == s.To {
						at = i + 1
					}
				}
			}
			st.added = append(st.added[:at], append([]string{s.Col.Name}, st.added[at:]...)...)
			if s.pk {
				st.pk = append(st.pk, s.Col.Name)
			}
		case "modify":
			if !has(s.Col.Name) {
				return finding("sql-not-applicable", "no column %q in %q%s", s.Col.Name, s.Table, tail)
			}
			if o, n := a.Table(s.Table), b.Table(s.Table); o != nil && n != nil && o.Col(s.Col.Name) != nil && n.Col(s.Col.Name) != nil {
				x, y := o.Col(s.Col.Name), n.Col(s.Col.Name)
				if x.PK == y.PK && x.Unique == y.Unique && renameable(x, y, comments, false) {
					return finding("sql-void", "column %s.%s did not change%s", s.Table, s.Col.Name, tail)
				}
			}
			st.decl[s.Col.Name] = s.Col
			delete(st.cols, s.Col.Name)
		case "dropcol":
			if !has(s.Cols[0]) {
				return finding("sql-not-applicable", "no column %q in %q%s", s.Cols[0], s.Table, tail)
			}
			delete(st.cols, s.Cols[0])
			delete(st.decl, s.Cols[0])
			var pk []string
			for _, n := range st.pk {
				if n != s.Cols[0] {
					pk = append(pk, n)
				}
			}
			st.pk = pk
		default:
			return finding("sql-statement", "unexpected statement %s", s.Kind)
		}
	}
	for n := range db {
		if b.Table(n) == nil {
			return finding("table-left", "table %q should be gone%s", n, tail)
		}
	}
	for _, n := range b.Tables {
		st := db[n.Name]
		if st == nil {
			return finding("table-missing", "table %q is not created%s", n.Name, tail)
		}
		if st.fresh != nil {
			if f := diffDTable(st.fresh, n, suffix); f != nil {
				f[0].Msg += tail
				return f
			}
			continue
		}
		for _, c := range n.Columns {
			d, o := st.decl[c.Name], st.cols[c.Name]
			at := n.Name + "." + c.Name
			switch {
			case d != nil:
				e := *d
				if !comments && st.from.Col(c.Name) != nil {
					e.Comment = c.Desc
				}
				if f := diffDCol(n.Name, &e, c); f != nil {
					f[0].Msg += tail
					return f
				}
			case o == nil:
				if !mayRename[at] {
					return finding("column-missing", "column %s is not added%s", at, tail)
				}
				omit["rename-column"] = "the rename to " + at
			default:
				if o.NotNull != c.NotNull {
					return finding("column-notnull", "%s: nullability does not change%s", at, tail)
				}
				if o.AutoInc != c.AutoInc {
					return finding("column-autoinc", "%s: auto increment does not change%s", at, tail)
				}
				if fmtType(o) != fmtType(c) || !sameValues(o, c) {
					omit["change-type"] = at
				}
				if o.Default != c.Default {
					omit["default-value"] = at
				}
				if comments && o.Desc != c.Desc {
					omit["column-comment"] = at
				}
			}
		}
		for x := range st.cols {
			if n.Col(x) == nil {
				omit["drop-column"] = n.Name + "." + x
			}
		}
		var added []string // columns added behind all others have an order: the one of the schema
		for i := len(n.Columns) - 1; i >= 0 && contains(st.added, n.Columns[i].Name); i-- {
			added = append([]string{n.Columns[i].Name}, added...)
		}
		if len(added) == len(st.added) && !sameList(added, st.added) {
			return finding("column-order", "%s: the columns %q are added in the order %q%s", n.Name, added, st.added, tail)
		}
		for x := range st.decl {
			if n.Col(x) == nil {
				return finding("column-left", "column %s.%s is not in the new schema%s", n.Name, x, tail)
			}
		}
		if !sameSet(st.pk, names(n.PKs())) {
			miss := false
			for _, p := range names(n.PKs()) {
				miss = miss || mayRename[n.Name+"."+p]
			}
			if !miss {
				return finding("primary-key", "%s: primary key %q, want %q%s", n.Name, st.pk, names(n.PKs()), tail)
			}
			omit["rename-column"] = n.Name + " primary key"
		}
		ou, nu := names(st.from.Uniques()), names(n.Uniques())
		if !sameSet(ou, nu) || len(ou) > 0 && st.from.Name != n.Name {
			if len(ou) > 0 {
				omit["drop-unique"] = n.Name
			}
			if len(nu) > 0 {
				omit["create-unique"] = n.Name
			}
		}
		if comments && st.from.Desc != n.Desc {
			omit["table-comment"] = n.Name
		}
	}
	var fs []Finding
	for _, k := range []string{"drop-unique", "create-unique", "table-comment", "column-comment", "drop-column", "change-type", "rename-column", "default-value"} {
		if w := omit[k]; w != "" {
			fs = append(fs, Finding{"omitted:" + k, fmt.Sprintf("the script has no statement for the change (%s): %s%s", k, w, tail)})
		}
	}
	return fs
}

func evalC13(r *Runner, c *Case) []Finding {
	r.PutSchema("a.json", c.S)
	r.PutSchema("b.json", c.T)
	a, b := Norm(c.S), Norm(c.T)
	var all []Finding
	seen := map[string]bool{}
	add := func(fs []Finding, prefix string) {
		for _, f := range fs {
			if prefix != "" && !strings.HasPrefix(f.Sig, "omitted:") {
				f.Sig = prefix + f.Sig
			}
			if !seen[f.Sig] {
				seen[f.Sig] = true
				all = append(all, f)
			}
		}
	}
	for _, cm := range []bool{false, true} {
		args := []string{"diff", "flyway", "-f", "a.json", "-t", "b.json", "-o", "o.sql"}
		suffix := ""
		if cm {
			suffix = "_uq"
			args = append(args, "-c", "-u", suffix)
		}
		out, f := mustRun(r, "o.sql", args...)
		if f != nil {
			return f
		}
		add(checkFlyway(out, a, b, suffix, cm), "")
		if c.Heavy && !movedGroup(a, b) {
			for _, g := range allGroups(a, b) {
				out, f := mustRun(r, "o.sql", append(args, "-g", g)...)
				if f != nil {
					return f
				}
				add(checkFlyway(out, Filter(a, []string{g}), Filter(b, []string{g}), suffix, cm), "group-")
			}
		}
	}
	return all
}

func init() {
	register("C12", func(x *Ctx) {
		x.Pool(evalC12, func(emit func(*Case) bool) {
			x.caseNamePairs(emit)
			x.pairCases(saneSchema, emit)
		})
	})
	register("C13", func(x *Ctx) {
		x.Pool(evalC13, func(emit func(*Case) bool) { x.pairCases(saneSchema, emit) })
	})
}

// caseNamePairs enumerates pairs of schemas with tables and columns whose names
// differ in letter case only, or where one is the beginning of another.
func (x *Ctx) caseNamePairs(emit func(*Case) bool) {
	var l []*Schema
	mk := func(k int) *Col {
		switch k {
		case 1:
			return &Col{Type: "int64"}
		case 2:
			return &Col{Type: "int64", PK: true}
		case 3:
			return &Col{Type: "int64", Unique: true}
		}
		return nil
	}
	cols := func(names []string, v ...int) *Table {
		t := &Table{Name: "t"}
		for i, k := range v {
			if c := mk(k); c != nil {
				c.Name = names[i]
				t.Columns = append(t.Columns, c)
			}
		}
		return t
	}
	for _, names := range [][]string{{"a", "A", "a "}, {"a", "ab", "a,b"}} {
		l = nil
		for i := 0; i < 64; i++ {
			l = append(l, &Schema{Version: "1", Tables: []*Table{cols(names, i%4, i/4%4, i/16)}})
		}
		for _, p := range l {
			for _, q := range l {
				x.states++
				x.trans++
				if !emit(&Case{Name: "letter case", S: p, T: q}) {
					return
				}
			}
		}
	}
	l = nil
	for i := 0; i < 64; i++ {
		s := &Schema{Version: "1"}
		for k, n := range []string{"t", "T", "tt"} {
			if v := i >> (2 * k) & 3; v > 0 {
				t := cols([]string{"a"}, v)
				t.Name = n
				s.Tables = append(s.Tables, t)
			}
		}
		l = append(l, s)
	}
	for _, p := range l {
		for _, q := range l {
			x.states++
			x.trans++
			if !emit(&Case{Name: "letter case of tables", S: p, T: q}) {
				return
			}
		}
	}
}
