package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// oCmd is an output command of the tool.
type oCmd struct {
	Name     string
	Verb     []string
	Out      string // output path below the output directory
	G        bool   // has a group option
	Diff     bool
	Variants [][]string
}

var outCmds = []oCmd{
	{Name: "dbml", Verb: []string{"export", "dbml"}, Out: "out/o.dbml", G: true},
	{Name: "mysql", Verb: []string{"export", "mysql"}, Out: "out/o.sql", G: true, Variants: [][]string{{"-u", "_uq"}}},
	{Name: "quickdbd", Verb: []string{"export", "quickdbd"}, Out: "out/o.txt"},
	{Name: "xlsx", Verb: []string{"export", "xlsx"}, Out: "out/o.xlsx", Variants: [][]string{{"--useNullColumn"}}},
	{Name: "gorm", Verb: []string{"generate", "gorm"}, Out: "out/o.go", G: true, Variants: [][]string{{"-a", "-k", "pkg", "-p", "alpha:A,beta:B", "-r", "tbl_", "-u", "_uq"}}},
	{Name: "graphql", Verb: []string{"generate", "graphql"}, Out: "out", Variants: nil},
	{Name: "kt", Verb: []string{"generate", "kt"}, Out: "out", G: true, Variants: [][]string{{"-p", "com.foo", "-r", "com.foo.repo", "-l", "VRelation", "-e", "IdEntity", "-f", "alpha:A", "-q", "_uq", "-a", "alpha:@Foo"}}},
	{Name: "liquibase", Verb: []string{"generate", "liquibase"}, Out: "out/o.yaml", G: true, Variants: [][]string{{"-u", "_uq", "-c"}}},
	{Name: "plantuml", Verb: []string{"generate", "plantuml"}, Out: "out/o.puml"},
	{Name: "pb", Verb: []string{"generate", "pb"}, Out: "out/o.proto", G: true, Variants: [][]string{{"-p", "foo.bar", "--goPackage", "foo/bar", "-s", "100", "--relationTagDecr", "-f", "alpha:A"}}},
	{Name: "sqlalchemy", Verb: []string{"generate", "sqlalchemy"}, Out: "out/o.py", G: true, Variants: [][]string{{"-u", "_uq", "-t", "-p", "alpha:A"}, {"DIR"}}},
	{Name: "flyway", Verb: []string{"diff", "flyway"}, Out: "out/o.sql", G: true, Diff: true, Variants: [][]string{{"-c", "-u", "_uq", "-a", "kim"}}},
	{Name: "diff-liquibase", Verb: []string{"diff", "liquibase"}, Out: "out/o.yaml", G: true, Diff: true, Variants: [][]string{{"-c", "-u", "_uq", "-a", "kim"}}},
	{Name: "md", Verb: []string{"diff", "md"}, Out: "out/o.md", G: true, Diff: true, Variants: [][]string{{"-c", "-u", "_uq", "-a", "kim"}}},
}

func (c oCmd) args(variant []string, in, in2 string, extra ...string) []string {
	a := append([]string{}, c.Verb...)
	out := c.Out
	if len(variant) == 1 && variant[0] == "DIR" {
		out, variant = "out", nil
	}
	if c.Diff {
		a = append(a, "-f", in, "-t", in2, "-o", out)
	} else {
		a = append(a, "-i", in, "-o", out)
	}
	a = append(a, variant...)
	return append(a, extra...)
}

func (c oCmd) variants() [][]string { return append([][]string{nil}, c.Variants...) }

// subTree lists the files below dir; workbooks are given as their cell text.
func (r *Runner) subTree(dir string) map[string]string {
	m := map[string]string{}
	root := filepath.Join(r.dir, dir)
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == root {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if fi.IsDir() {
			m[rel+"/"] = ""
			return nil
		}
		b, _ := os.ReadFile(p)
		m[rel] = string(b)
		if strings.HasSuffix(rel, ".xlsx") {
			t, err := xlsxText(b)
			if err != nil {
				t = "unreadable workbook: " + err.Error()
			}
			m[rel] = t
		}
		return nil
	})
	return m
}

// runOut runs the command into an empty output directory.
func (r *Runner) runOut(c oCmd, variant []string, in, in2 string, extra ...string) (map[string]string, Res) {
	root := filepath.Join(r.dir, "out")
	os.RemoveAll(root)
	os.Mkdir(root, 0755)
	res := r.Run(c.args(variant, in, in2, extra...)...)
	return r.subTree("out"), res
}

func diffTrees(got, want map[string]string) string {
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		g, ok := got[k]
		w, ok2 := want[k]
		switch {
		case !ok:
			return fmt.Sprintf("file %s is missing", k)
		case !ok2:
			return fmt.Sprintf("extra file %s:\n%s", k, clip(g, 600))
		case g != w:
			i := 0
			for i < len(g) && i < len(w) && g[i] == w[i] {
				i++
			}
			s := i - 150
			if s < 0 {
				s = 0
			}
			return fmt.Sprintf("file %s differs at byte %d:\n--- got\n%s\n--- want\n%s", k, i, clip(g[s:], 500), clip(w[s:], 500))
		}
	}
	return ""
}

func cmdLine(a []string) string { return "oct " + strings.Join(a, " ") }
