package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"

	"verif/checker/ai"
)

// refName maps a function object to the name of its reference semantics.
func refName(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	if sig.Recv() == nil {
		return "vr__" + f.Name()
	}
	t := sig.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return "vr_" + t.(*types.Named).Obj().Name() + "_" + f.Name()
}

// mkref writes a reference copy of every function of package goabnf: methods
// become plain functions, calls go to the other references, constants are
// inlined. It is a development tool; no check runs it.
func mkref(r *Repo, out string, only map[string]bool) error {
	for _, u := range r.Units {
		if err := mkrefUnit(r, u, filepath.Join(out, u.Name), only); err != nil {
			return err
		}
	}
	return nil
}

func mkrefUnit(r *Repo, u *Unit, out string, only map[string]bool) error {
	p := u.P
	for _, file := range p.Syntax {
		base := strings.TrimSuffix(filepath.Base(r.Fset.Position(file.Pos()).Filename), ".go")
		if strings.HasPrefix(base, "zz_vr") || strings.HasSuffix(base, "_fuzz") || base == "stubs" {
			continue
		}
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			obj := p.TypesInfo.Defs[fd.Name].(*types.Func)
			name := refName(obj)
			if only != nil && !only[name] {
				continue
			}
			if obj.Name() == "init" || obj.Name() == "_" || stubbed(u, obj.Name()) {
				continue
			}
			src, err := refSource(r, u, p.TypesInfo, fd, name)
			if err != nil {
				return fmt.Errorf("%s: %v", name, err)
			}
			dir := filepath.Join(out, base)
			os.MkdirAll(dir, 0o755)
			if err := os.WriteFile(filepath.Join(dir, name+".go"), src, 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}

// stubbed functions stand for the grammar-dependent part of generated parsers.
func stubbed(u *Unit, name string) bool {
	return u.Name == "runtime" && (name == "seed" || name == "process")
}

func refSource(r *Repo, u *Unit, info *types.Info, fd *ast.FuncDecl, name string) ([]byte, error) {
	pkg := u.Pkg.Pkg
	imports := map[string]string{}
	constLit := func(v constant.Value) ast.Expr {
		switch v.Kind() {
		case constant.Bool:
			return ast.NewIdent(fmt.Sprint(constant.BoolVal(v)))
		case constant.String:
			if a, ok := ai.StrAlias[constant.StringVal(v)]; ok {
				return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(a)}
			}
			return &ast.BasicLit{Kind: token.STRING, Value: v.ExactString()}
		case constant.Int:
			return &ast.BasicLit{Kind: token.INT, Value: v.ExactString()}
		}
		return nil
	}
	globalConst := map[string]string{}
	for g, t := range r.Consts() {
		if g.Pkg == u.Pkg && t.IsInt() {
			globalConst[g.Name()] = fmt.Sprint(t.K)
		}
	}
	fd.Doc = nil
	res := astutil.Apply(fd, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.CommentGroup:
			return false
		case *ast.SelectorExpr:
			// constants of other packages stay as they are
			if id, ok := x.X.(*ast.Ident); ok {
				if pn, ok := info.Uses[id].(*types.PkgName); ok {
					imports[id.Name] = pn.Imported().Path()
					return false
				}
			}
		case *ast.Ident:
			o := info.Uses[x]
			if o == nil || o.Pkg() != pkg || o.Parent() != pkg.Scope() {
				return true
			}
			switch o := o.(type) {
			case *types.Const:
				lit := constLit(o.Val())
				if lit != nil {
					if n, ok := o.Type().(*types.Named); ok {
						c.Replace(&ast.CallExpr{Fun: ast.NewIdent(n.Obj().Name()), Args: []ast.Expr{lit}})
					} else {
						c.Replace(lit)
					}
				}
			case *types.Var:
				if s, ok := globalConst[o.Name()]; ok {
					if sel, isSel := c.Parent().(*ast.SelectorExpr); !isSel || sel.X == x {
						c.Replace(&ast.CallExpr{Fun: ast.NewIdent(types.TypeString(o.Type(), types.RelativeTo(pkg))), Args: []ast.Expr{ast.NewIdent(s)}})
					}
				}
			}
		}
		return true
	}, func(c *astutil.Cursor) bool {
		call, ok := c.Node().(*ast.CallExpr)
		if !ok {
			return true
		}
		switch f := call.Fun.(type) {
		case *ast.Ident:
			if o, ok := info.Uses[f].(*types.Func); ok && o.Pkg() == pkg && !stubbed(u, o.Name()) {
				call.Fun = ast.NewIdent(refName(o))
			}
		case *ast.SelectorExpr:
			sel := info.Selections[f]
			if sel == nil || sel.Kind() != types.MethodVal {
				return true
			}
			o := sel.Obj().(*types.Func)
			if stubbed(u, o.Name()) {
				return true
			}
			if o.Pkg() != pkg || types.IsInterface(sel.Recv()) || len(sel.Index()) != 1 {
				return true
			}
			sig := o.Type().(*types.Signature)
			if types.IsInterface(sig.Recv().Type()) {
				return true
			}
			recv := f.X
			_, wantPtr := sig.Recv().Type().(*types.Pointer)
			_, havePtr := sel.Recv().Underlying().(*types.Pointer)
			if wantPtr && !havePtr {
				recv = &ast.UnaryExpr{Op: token.AND, X: recv}
			} else if !wantPtr && havePtr {
				recv = &ast.StarExpr{X: recv}
			}
			call.Fun = ast.NewIdent(refName(o))
			call.Args = append([]ast.Expr{recv}, call.Args...)
		}
		return true
	}).(*ast.FuncDecl)
	nf := &ast.FuncDecl{Name: ast.NewIdent(name), Type: res.Type, Body: res.Body}
	if res.Recv != nil {
		rf := res.Recv.List[0]
		if len(rf.Names) == 0 {
			rf = &ast.Field{Names: []*ast.Ident{ast.NewIdent("_")}, Type: rf.Type}
		}
		nf.Type = &ast.FuncType{TypeParams: res.Type.TypeParams, Params: &ast.FieldList{List: append([]*ast.Field{rf}, res.Type.Params.List...)}, Results: res.Type.Results}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n", pkg.Name())
	var ks []string
	for k := range imports {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "import %s %q\n", k, imports[k])
	}
	b.WriteString("\n")
	if err := printer.Fprint(&b, r.Fset, nf); err != nil {
		return nil, err
	}
	b.WriteString("\n")
	// normalise positions: reparse and print
	fs := token.NewFileSet()
	pf, err := parser.ParseFile(fs, "x.go", b.Bytes(), 0)
	if err != nil {
		return b.Bytes(), fmt.Errorf("%v\n%s", err, b.String())
	}
	var b2 bytes.Buffer
	if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&b2, fs, pf); err != nil {
		return nil, err
	}
	return b2.Bytes(), nil
}
