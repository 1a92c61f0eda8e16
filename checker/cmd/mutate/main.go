// mutate applies the i-th small behaviour-changing edit to a scratch copy of
// the repository. Usage: mutate DIR list | mutate DIR apply N
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mut struct {
	file, fn, what string
	line           int
	do             func()
}

func main() {
	dir := os.Args[1]
	var files []string
	for _, p := range []string{"*.go", "cmd/abnf-gen/*.go", "cmd/pap/commands/*.go"} {
		fs, _ := filepath.Glob(filepath.Join(dir, p))
		files = append(files, fs...)
	}
	sort.Strings(files)
	fset := token.NewFileSet()
	var muts []mut
	asts := map[string]*ast.File{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") || strings.HasSuffix(f, "_fuzz.go") || strings.HasSuffix(f, "rules.go") {
			continue
		}
		af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		asts[f] = af
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				name = strings.TrimPrefix(src(fset, fd.Recv.List[0].Type), "*") + "." + name
			}
			add := func(n ast.Node, what string, do func()) {
				muts = append(muts, mut{f, name, what, fset.Position(n.Pos()).Line, do})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					sw := map[token.Token]token.Token{token.LSS: token.LEQ, token.LEQ: token.LSS, token.GTR: token.GEQ, token.GEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL, token.LAND: token.LOR, token.LOR: token.LAND, token.SUB: token.ADD}
					if o, ok := sw[x.Op]; ok {
						add(x, x.Op.String()+" -> "+o.String(), func() { x.Op = o })
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						add(x, "drop left of "+x.Op.String(), func() { x.X = x.Y })
						add(x, "drop right of "+x.Op.String(), func() { x.Y = x.X })
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							add(x, "int+1", func() { x.Value = fmt.Sprint(v + 1) })
						}
					}
				case *ast.IfStmt:
					c := x.Cond
					add(x, "if !", func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: c}} })
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.CONTINUE {
						add(x, "continue->break", func() { x.Tok = token.BREAK })
					}
				case *ast.Ident:
					if x.Name == "true" || x.Name == "false" {
						o := map[string]string{"true": "false", "false": "true"}[x.Name]
						add(x, x.Name+"->"+o, func() { x.Name = o })
					}
				case *ast.BlockStmt:
					for i, s := range x.List {
						i := i
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt:
							add(s, "delete stmt "+short(src(fset, s)), func() { x.List[i] = &ast.EmptyStmt{} })
						case *ast.AssignStmt:
							if y.Tok == token.DEFINE {
								break
							}
							l := src(fset, y.Lhs[0])
							add(s, "delete stmt "+short(src(fset, s)), func() {
								if y.Tok == token.ASSIGN {
									x.List[i] = &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{y.Rhs[0]}}
									if len(y.Lhs) > 1 {
										x.List[i] = &ast.EmptyStmt{}
									}
								} else {
									e, _ := parser.ParseExpr(l)
									x.List[i] = &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{e}}
								}
							})
						case *ast.IfStmt:
							if y.Else == nil && y.Init == nil {
								add(s, "delete if "+short(src(fset, y.Cond)), func() {
									x.List[i] = &ast.IfStmt{Cond: &ast.BinaryExpr{X: ast.NewIdent("false"), Op: token.LAND, Y: &ast.ParenExpr{X: y.Cond}}, Body: y.Body}
								})
							}
						}
					}
				}
				return true
			})
		}
	}
	switch os.Args[2] {
	case "list":
		for i, m := range muts {
			fmt.Printf("%d %s:%d %s %s\n", i, filepath.Base(m.file), m.line, m.fn, m.what)
		}
	case "apply":
		i, _ := strconv.Atoi(os.Args[3])
		m := muts[i]
		m.do()
		var b bytes.Buffer
		printer.Fprint(&b, fset, asts[m.file])
		os.WriteFile(m.file, b.Bytes(), 0o644)
		fmt.Printf("%d %s:%d %s %s\n", i, filepath.Base(m.file), m.line, m.fn, m.what)
	}
}

func short(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 50 {
		s = s[:50]
	}
	return s
}

func src(fset *token.FileSet, n ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, fset, n)
	return b.String()
}
