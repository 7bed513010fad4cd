package main

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// ---- C27: no crash, no failure ------------------------------------------------------

var oddNames = []string{"with space", "with-dash", "with.dot", "1st", "한글", "select", "class", "func", "type", "A", "_", "__x", "$amount", "Ünïcode", "ID", "x__y", "a_b_c_d_e_f", "tableName", "model", "null", "String", "ALLCAPS_NAME", "trailing_", "éa", "very_long_name_that_goes_on_and_on_and_on_for_more_than_sixty_four_characters_in_total"}
var oddTables = append(append([]string{}, oddNames...), "base", "Query", "query", "Common", "string", "error", "time", "null_", "Meta", "this is a very long table name for a sheet")
var oddText = []string{"line1\nline2", "tab\there", "quote ' and \" and `", "`", "\\", "%d %s {{.}} ${x}", "-- comment", "/* c */", "한글 설명", "🎉", " leading and trailing ", "'", "<b>&amp;</b>", "null", "|", "*", "[x]", "{", "}", "#"}

// defaultFits says whether the default is certainly a value of the column type.
var intRe = regexp.MustCompile(`^-?[0-9]{1,9}$`)
var decRe = regexp.MustCompile(`^-?[0-9]{1,9}(\.[0-9]{1,9})?$`)

func defaultFits(c *Col) bool {
	d := c.Default
	if d == "" || strings.HasPrefix(d, "fn::") {
		return true
	}
	ct := canonType(c.Type)
	switch {
	case isInt(ct) || ct == "bit" || ct == "year":
		return intRe.MatchString(d)
	case isDec(ct):
		return decRe.MatchString(d)
	case ct == "boolean":
		return d == "true" || d == "false" || d == "0" || d == "1"
	case ct == "datetime":
		_, err := time.Parse("2006-01-02 15:04:05", d)
		return err == nil
	case ct == "date":
		_, err := time.Parse("2006-01-02", d)
		return err == nil
	case ct == "time":
		_, err := time.Parse("15:04:05", d)
		return err == nil
	}
	return true
}

func allFit(s *Schema) bool {
	if s == nil {
		return true
	}
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			if !defaultFits(c) || !defaultFits(&Col{Type: c.Type, Default: c.OnUpdate}) {
				return false
			}
		}
	}
	return true
}

func evalC27(r *Runner, c *Case) []Finding {
	if k, ok := c.X.(*rawCase); ok {
		return evalRaw(r, k)
	}
	r.PutSchema("in.json", c.S)
	t := c.T
	if t == nil {
		t = seedTwo()
	}
	r.PutSchema("in2.json", t)
	fits := allFit(c.S) && allFit(t)
	for _, cmd := range outCmds {
		vs := cmd.variants()
		if !c.Heavy {
			vs = vs[:1]
		}
		for _, v := range vs {
			runs := [][2]string{{"in.json", "in2.json"}}
			if cmd.Diff {
				runs = append(runs, [2]string{"in2.json", "in.json"})
			}
			if c.Heavy && cmd.G && (len(c.Trace) == 0) {
				for _, g := range []string{"nogroup", "alpha", ","} {
					a := cmd.args(v, "in.json", "in2.json", "-g", g)
					r.Clear("out")
					r.Put("out/.keep", nil)
					if f := noCrash(r.Run(a...), a, fits); f != nil {
						return tag(cmd.Name, f)
					}
				}
			}
			for _, in := range runs {
				out, res := r.runOut(cmd, v, in[0], in[1])
				a := cmd.args(v, in[0], in[1])
				if f := noCrash(res, a, fits); f != nil {
					return tag(cmd.Name, f)
				}
				if res.OK() && len(out) == 0 && len(c.S.Tables) > 0 {
					return finding(cmd.Name+":no-output", "%s exits 0 but writes nothing", cmdLine(a))
				}
			}
		}
	}
	return nil
}

func noCrash(res Res, args []string, mustSucceed bool) []Finding {
	if res.Timeout {
		return finding("hangs", "%s does not end", cmdLine(args))
	}
	if res.Crashed() || res.Exit >= 2 {
		return finding("crashes", "%s crashes (exit %d): %s", cmdLine(args), res.Exit, clip(res.Out, 900))
	}
	if mustSucceed && !res.OK() {
		return finding("fails", "%s exits %d on a valid schema: %s", cmdLine(args), res.Exit, clip(res.Out, 500))
	}
	if !res.OK() && strings.TrimSpace(res.Out) == "" {
		return finding("silent", "%s exits %d without a message", cmdLine(args), res.Exit)
	}
	return nil
}

// rawCase is an input file for commands that read foreign files.
type rawCase struct {
	file string
	data []byte
	cmds [][]string
}

func evalRaw(r *Runner, k *rawCase) []Finding {
	r.Put(k.file, k.data)
	for _, a := range k.cmds {
		r.Clear("o.json")
		if f := noCrash(r.Run(a...), a, false); f != nil {
			f[0].Msg += "\ninput: " + strconv.Quote(clip(string(k.data), 1500))
			return tag(strings.Join(a[:2], "-"), f)
		}
	}
	return nil
}

// jsonMutations replaces every node of the document by odd values, removes it, or doubles it.
func jsonMutations(doc []byte, emit func(path string, b []byte) bool) {
	var root interface{}
	if err := json.Unmarshal(doc, &root); err != nil {
		panic(err)
	}
	vals := []interface{}{nil, "", "x", "1", float64(0), float64(-1), 1.5, 1e300, true, false, []interface{}{}, map[string]interface{}{}, []interface{}{nil}, []interface{}{"x"}, map[string]interface{}{"x": nil}}
	stop := false
	out := func(path string) {
		b, _ := json.Marshal(root)
		if !emit(path, b) {
			stop = true
		}
	}
	var walk func(v interface{}, path string, set func(interface{}))
	walk = func(v interface{}, path string, set func(interface{})) {
		for _, nv := range vals {
			if stop {
				return
			}
			set(nv)
			b, _ := json.Marshal(nv)
			out(path + "=" + string(b))
		}
		set(v)
		switch x := v.(type) {
		case map[string]interface{}:
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				k, old := k, x[k]
				delete(x, k)
				out(path + "." + k + " removed")
				x[k] = old
				walk(old, path+"."+k, func(nv interface{}) { x[k] = nv })
			}
		case []interface{}:
			for i := range x {
				i, old := i, x[i]
				short := append(append([]interface{}{}, x[:i]...), x[i+1:]...)
				set(short)
				out(fmt.Sprintf("%s[%d] removed", path, i))
				set(append(append([]interface{}{}, x...), old))
				out(fmt.Sprintf("%s[%d] twice", path, i))
				set(x)
				walk(old, fmt.Sprintf("%s[%d]", path, i), func(nv interface{}) { x[i] = nv })
			}
		}
	}
	walk(root, "$", func(nv interface{}) { root = nv })
}

var sqlTok = regexp.MustCompile("(?s)'(?:[^'\\\\]|\\\\.|'')*'|`[^`]*`|[A-Za-z0-9_.]+|\\s+|.")

// tokenMutations removes, doubles and replaces every token.
func tokenMutations(src string, repl []string, emit func(what string, b []byte) bool) {
	toks := sqlTok.FindAllString(src, -1)
	for i, t := range toks {
		if strings.TrimSpace(t) == "" {
			continue
		}
		mk := func(s string) []byte {
			return []byte(strings.Join(toks[:i], "") + s + strings.Join(toks[i+1:], ""))
		}
		if !emit(fmt.Sprintf("token %d %q removed", i, t), mk("")) || !emit(fmt.Sprintf("token %d %q twice", i, t), mk(t+" "+t)) {
			return
		}
		for _, r := range repl {
			if !emit(fmt.Sprintf("token %d %q -> %q", i, t, r), mk(r)) {
				return
			}
		}
	}
}

var sharedRe = regexp.MustCompile(`(?s)<t[^>]*>(.*?)</t>`)

// rezip rewrites one member of a workbook.
func rezip(data []byte, member string, f func([]byte) []byte) []byte {
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		panic(err)
	}
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	for _, m := range zr.File {
		rc, _ := m.Open()
		b, _ := io.ReadAll(rc)
		rc.Close()
		if m.Name == member {
			b = f(b)
			if b == nil {
				continue
			}
		}
		w, _ := zw.Create(m.Name)
		w.Write(b)
	}
	zw.Close()
	return buf.Bytes()
}

func zipMembers(data []byte) map[string]string {
	m := map[string]string{}
	zr, _ := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	for _, f := range zr.File {
		rc, _ := f.Open()
		b, _ := io.ReadAll(rc)
		rc.Close()
		m[f.Name] = string(b)
	}
	return m
}

func exploreRaw(x *Ctx, emit0 func(*Case) bool) {
	emit := func(name, what, file string, data []byte, cmds ...[]string) bool {
		atomic.AddInt64(&x.states, 1)
		atomic.AddInt64(&x.trans, 1)
		return emit0(&Case{Name: name, Trace: []string{what}, X: &rawCase{file, append([]byte{}, data...), cmds}})
	}
	imp := func(k, f string) []string { return []string{"import", k, "-i", f, "-o", "o.json"} }
	files := cliFiles()
	small := []string{"", " ", "\n", "x", "null", "[]", "{}", "0", "\"\"", "\x00", "\xff\xfe", "true", "[null]", "{\"tables\":null}", "{\"tables\":[null]}", "{\"ownedElements\":[{}]}", ";", "create", "create table", "CREATE TABLE t (", "CREATE TABLE t ();", "DROP TABLE x;", "INSERT INTO x VALUES (1);", "PK\x03\x04", strings.Repeat("[", 2000), strings.Repeat("(", 2000)}
	all := [][2]string{{"mysql", "in.sql"}, {"ojson", "in.ojson"}, {"staruml", "in.mdj"}, {"xlsx", "in.xlsx"}}
	for _, k := range all {
		for _, d := range small {
			emit("small file", k[0]+" "+strconv.Quote(clip(d, 20)), k[1], []byte(d), imp(k[0], k[1]))
		}
		for _, o := range all {
			emit("other format", k[0]+" reads "+o[1], k[1], files[o[1]], imp(k[0], k[1]))
		}
	}
	// truncations
	for _, k := range all {
		d := files[k[1]]
		step := 1
		if !x.Thorough && len(d) > 3000 {
			step = len(d)/3000 + 1
		}
		if k[0] == "xlsx" {
			step *= 4
		}
		for n := 0; n < len(d); n += step {
			if !emit("truncated", fmt.Sprintf("%s at %d", k[1], n), k[1], d[:n], imp(k[0], k[1])) {
				return
			}
		}
	}
	// JSON documents
	for _, k := range all[1:3] {
		doc := files[k[1]]
		if !x.Thorough {
			s := seedTwo()
			doc = renderOjson(s, true)
			if k[0] == "staruml" {
				doc = renderUML(s, make([]int, len(umlRadix)))
			}
		}
		jsonMutations(doc, func(p string, b []byte) bool {
			return emit("json mutation", k[1]+" "+p, k[1], b, imp(k[0], k[1]))
		})
	}
	// schema documents that parse as JSON
	var verbs [][]string
	for _, c := range outCmds {
		if !c.Diff {
			verbs = append(verbs, c.args(nil, "in.json", ""))
		}
	}
	rot := 0
	jsonMutations(seedTwo().JSON(), func(p string, b []byte) bool {
		rot++
		cs := [][]string{verbs[rot%len(verbs)], {"diff", "md", "-f", "in.json", "-t", "in.json", "-o", "out/o.md"}}
		if x.Thorough {
			cs = append(verbs, cs[1])
		}
		return emit("json mutation", "schema "+p, "in.json", b, cs...)
	})
	// SQL
	repl := []string{"'", "`", "(", ")", ",", "0", "''", "NULL", "x", "-1", "enum('a')", "99999999999999999999", "--", "/*", "\x00"}
	tokenMutations(renderDDL(seedKeys(), fewStyles()[0]), repl, func(w string, b []byte) bool {
		return emit("sql mutation", w, "in.sql", b, imp("mysql", "in.sql"))
	})
	// workbooks: every shared string and every part
	wb := renderXlsx(dropEnums(seedKeys()), make([]int, len(xlsxRadix)))
	mem := zipMembers(wb)
	var ms []string
	for n := range mem {
		ms = append(ms, n)
	}
	sort.Strings(ms)
	for _, n := range ms {
		n := n
		for _, v := range []string{"DROP", "", "x", "<a/>"} {
			emit("workbook part", n+"="+v, "in.xlsx", rezip(wb, n, func([]byte) []byte {
				if v == "DROP" {
					return nil
				}
				return []byte(v)
			}), imp("xlsx", "in.xlsx"))
		}
	}
	for _, part := range ms {
		src := mem[part]
		locs := sharedRe.FindAllStringSubmatchIndex(src, -1)
		for i, l := range locs {
			for _, v := range []string{"", " ", "x", "0", "-1", "varchar", "varchar(", "varchar()", "varchar(x)", "decimal(1", "enum", "&gt;", "a &gt; b", "-&gt; ", "a.b.c", ".", ",", "=", "default=", "ref:", "P,U", "/", "()"} {
				if !emit("workbook text", fmt.Sprintf("%s text %d %q -> %q", part, i, src[l[2]:l[3]], v), "in.xlsx", rezip(wb, part, func([]byte) []byte {
					return []byte(src[:l[2]] + v + src[l[3]:])
				}), imp("xlsx", "in.xlsx")) {
					return
				}
			}
		}
	}
}

func seedOdd() []Seed {
	one := func(n string, cs ...*Col) *Schema {
		return &Schema{Version: "1", Tables: []*Table{{Name: n, Columns: cs}}}
	}
	return []Seed{
		{"nulls", &Schema{}},
		{"keyonly", one("k", &Col{Name: "id", Type: "int64", PK: true})},
		{"allkeys", one("k", &Col{Name: "a", Type: "int64", PK: true, Unique: true}, &Col{Name: "b", Type: "varchar", PK: true, Unique: true}, &Col{Name: "c", Type: "datetime", PK: true})},
		{"emptygroup", &Schema{Version: "1", Tables: []*Table{{Name: "a", Group: ""}, {Name: "b", Group: "Common", Columns: []*Col{{Name: "x", Type: "int8"}}}}}},
		{"selfrefs", one("k", &Col{Name: "id", Type: "int64", PK: true}, &Col{Name: "up", Type: "int64", Ref: &Ref{"k", "id", "n:1"}}, &Col{Name: "down", Type: "int64", Ref: &Ref{"k", "up", "1:n"}}, &Col{Name: "me", Type: "int64", Ref: &Ref{"k", "me", "1:1"}})},
		{"badrefs", one("k", &Col{Name: "a", Type: "int64", Ref: &Ref{}}, &Col{Name: "b", Type: "int64", Ref: &Ref{Table: "k"}}, &Col{Name: "c", Type: "int64", Ref: &Ref{Column: "a"}}, &Col{Name: "d", Type: "int64", Ref: &Ref{"none", "none", "x"}})},
		{"badindex", &Schema{Version: "1", Tables: []*Table{{Name: "k", Columns: []*Col{{Name: "a", Type: "int64"}}, Indices: []*Index{{"i", nil}, {"", []string{"a"}}, {"j", []string{"nocol"}}, {"k", []string{"a", "a"}}}}}}},
	}
}

func validUnique(s *Schema) bool { return Valid(s) == nil && uniqueNames(s) }

func alphaOdd() *Alphabet {
	return &Alphabet{
		Types:     append(append([]string{}, allTypes...), "VARCHAR", "BigInt"),
		Sizes:     [][2]int{{0, 0}, {1, 0}, {255, 0}, {65535, 0}, {5, 5}, {1, 9}, {0, 3}},
		Flags:     "npua",
		Defaults:  append([]string{"0", "1", "-1", "1.5", "true", "fn::NOW", "fn::", "fn::f('x')"}, oddText...),
		OnUpdates: []string{"", "fn::NOW", "x", "'"},
		Descs:     oddText,
		ColNames:  oddNames,
		TblNames:  oddTables,
		Groups:    []string{"", "alpha", "Common", "with space", "a,b", "{x}", "한글", "a-b+c (1)"},
		Classes:   []string{"", "MyClass", "with space", "1x", "한글"},
		Refs:      []Ref{{}, {"*", "*", "n:1"}, {"=", "*", "1:n"}, {"$", "*", "1:1"}, {"nowhere", "id", "n:1"}, {"*", "nocol", "n:1"}, {"*", "", ""}, {"=", "*", "what"}},
		Values:    [][]string{{""}, {"'"}, {"a,b", "\""}, {"\\", "\n"}, {"한글"}},
		TblDescs:  oddText,
		Structure: true, Indices: true, Meta: true,
	}
}

func exploreC27(x *Ctx, emit func(*Case) bool) {
	x.Explore(append(seedOdd(), Seed{"min", seedMin()}), []*Alphabet{alphaOdd()}, validUnique, heavyFirst(emit, 1))
	wide := append(stdSeeds(), Seed{"refs", seedRefs()}, Seed{"embed", seedEmbed()}, Seed{"py", seedPy()}, Seed{"cli", cliSchema(1)})
	w := alphaOdd()
	if !x.Thorough {
		w.Types, w.Sizes = []string{"enum", "decimal", "nosuch"}, [][2]int{{0, 0}}
		w.Defaults, w.Descs, w.TblDescs = []string{"fn::", "'"}, oddText[:1], oddText[:1]
		w.ColNames, w.TblNames = []string{"1st", "한글", "with space"}, []string{"with space", "Common"}
		w.Groups, w.Classes, w.Values = w.Groups[2:4], w.Classes[1:3], w.Values[1:2]
		w.OnUpdates = w.OnUpdates[1:2]
	}
	x.Explore(wide, []*Alphabet{w}, validUnique, heavyFirst(emit, 0))
	exploreRaw(x, emit)
	a := alphaOdd()
	if !x.Thorough {
		a.Types, a.Sizes = []string{"enum", "decimal", "int64", "nosuch"}, [][2]int{{0, 0}}
		a.Defaults, a.Descs, a.TblDescs = []string{"fn::", "'"}, oddText[:1], oddText[:1]
		a.ColNames, a.TblNames = []string{"1st"}, []string{"Common"}
		a.Groups, a.Classes, a.Values = a.Groups[:3], a.Classes[:2], a.Values[:1]
		a.OnUpdates = a.OnUpdates[1:2]
	}
	x.Explore([]Seed{{"min", seedMin()}, {"selfrefs", seedOdd()[4].S}}, []*Alphabet{a, a}, validUnique, heavyFirst(emit, 0))
	// diffs between neighbouring and unrelated states
	for _, sd := range append(seedOdd(), stdSeeds()...) {
		for _, se := range append(seedOdd(), stdSeeds()...) {
			if !emit(&Case{Name: sd.Name + "/" + se.Name, S: sd.S, T: se.S, Heavy: true}) {
				return
			}
			atomic.AddInt64(&x.trans, 1)
		}
	}
}

func init() {
	register("C27", func(x *Ctx) {
		x.Pool(evalC27, func(emit func(*Case) bool) { exploreC27(x, emit) })
	})
}
