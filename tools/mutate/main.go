// mutate lists or applies small source changes; used to look for breakage the checks miss.
//   mutate list FILE...          prints "FILE\tN\tLINE\tWHAT"
//   mutate apply FILE N          writes the changed file to standard output
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	from, to int // byte offsets
	text     string
	what     string
}

func edits(name string) (src []byte, out []edit, lines func(int) int) {
	src, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	lines = func(o int) int { return 1 + bytes.Count(src[:o], []byte("\n")) }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(n ast.Node, s, what string) { out = append(out, edit{off(n.Pos()), off(n.End()), s, what}) }
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.GenDecl:
			if v.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			l, r := text(v.X), text(v.Y)
			switch v.Op {
			case token.LAND, token.LOR:
				add(v, l, "keep left of "+v.Op.String())
				add(v, r, "keep right of "+v.Op.String())
			case token.EQL:
				add(v, l+" != "+r, "== to !=")
			case token.NEQ:
				add(v, l+" == "+r, "!= to ==")
			case token.LSS:
				add(v, l+" <= "+r, "< to <=")
			case token.LEQ:
				add(v, l+" < "+r, "<= to <")
			case token.GTR:
				add(v, l+" >= "+r, "> to >=")
			case token.GEQ:
				add(v, l+" > "+r, ">= to >")
			case token.ADD:
				if _, ok := v.Y.(*ast.BasicLit); ok {
					add(v, l, "drop + literal")
				}
			case token.SUB:
				add(v, l+" + "+r, "- to +")
			}
		case *ast.UnaryExpr:
			if v.Op == token.NOT {
				add(v, text(v.X), "drop !")
			}
		case *ast.IfStmt:
			if v.Else == nil && v.Init == nil {
				add(v.Cond, "false && ("+text(v.Cond)+")", "never")
			}
			add(v.Cond, "true || ("+text(v.Cond)+")", "always")
		case *ast.BlockStmt:
			stmts(v.List, add, text)
		case *ast.CaseClause:
			stmts(v.Body, add, text)
			if len(v.List) > 1 {
				for i := range v.List {
					if i+1 < len(v.List) {
						out = append(out, edit{off(v.List[i].Pos()), off(v.List[i+1].Pos()), "", "drop case " + text(v.List[i])})
					}
				}
			} else if len(v.List) == 1 && len(v.Body) > 0 {
				out = append(out, edit{off(v.Pos()), off(v.End()), "", "drop case " + text(v.List[0])})
			}
		case *ast.BasicLit:
			switch v.Kind {
			case token.INT:
				if n, err := strconv.Atoi(v.Value); err == nil {
					add(v, strconv.Itoa(n+1), "int+1")
				}
			case token.STRING:
				if v.Value[0] == '"' && len(v.Value) > 2 && len(v.Value) < 40 {
					add(v, `""`, "empty string")
				}
			}
		case *ast.Ident:
			if v.Name == "true" {
				add(v, "false", "true to false")
			} else if v.Name == "false" {
				add(v, "true", "false to true")
			}
		case *ast.ReturnStmt:
			if len(v.Results) == 1 {
				if _, ok := v.Results[0].(*ast.CallExpr); ok && strings.Contains(text(v), "err") {
					add(v.Results[0], "nil", "return nil")
				}
				if text(v.Results[0]) == "err" {
					add(v.Results[0], "nil", "swallow err")
				}
			}
		case *ast.RangeStmt:
			add(v.X, "("+text(v.X)+")[1:]", "range skips first")
		}
		return true
	}
	for _, d := range f.Decls {
		ast.Inspect(d, func(n ast.Node) bool {
			if c, ok := n.(*ast.CompositeLit); ok {
				if c.Type != nil {
					t := text(c.Type)
					if strings.HasPrefix(t, "[]cli.") || strings.HasPrefix(t, "cli.") {
						return false
					}
				}
				return true
			}
			if n == nil {
				return true
			}
			return walk(n)
		})
	}
	return
}

func stmts(l []ast.Stmt, add func(ast.Node, string, string), text func(ast.Node) string) {
	for _, s := range l {
		switch v := s.(type) {
		case *ast.ExprStmt:
			add(v, "", "drop call "+first(text(v)))
		case *ast.AssignStmt:
			if v.Tok != token.DEFINE {
				add(v, "", "drop assignment "+first(text(v)))
			}
		case *ast.BranchStmt:
			add(v, "", "drop "+text(v))
		case *ast.IncDecStmt:
			add(v, "", "drop "+text(v))
		}
	}
}

func first(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, f := range os.Args[2:] {
			_, es, line := edits(f)
			for i, e := range es {
				fmt.Printf("%s\t%d\t%d\t%s\n", f, i, line(e.from), e.what)
			}
		}
	case "apply":
		src, es, _ := edits(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		e := es[n]
		os.Stdout.Write(append(append(append([]byte{}, src[:e.from]...), e.text...), src[e.to:]...))
	}
}
