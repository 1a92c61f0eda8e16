package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// Structural alignment: where abstract interpretation cannot relate a function
// to its reference (mostly because a loop changed), both are brought to a
// normal form of the type-checked syntax tree (names, parentheses, spelling of
// comparisons, constants and assignments do not matter) and aligned. A single
// remaining point of disagreement of a kind that changes what is computed is a
// violation; anything else stays undecided.

// nd is a node of the normal form.
type nd struct {
	k    string
	s    string
	obj  types.Object
	tp   types.Type
	kids []*nd
	pos  token.Pos
}

func (n *nd) String() string {
	if n == nil {
		return "-"
	}
	var b strings.Builder
	n.render(&b)
	return b.String()
}

func (n *nd) render(b *strings.Builder) {
	switch n.k {
	case "var":
		b.WriteString(n.obj.Name())
		return
	case "const", "glob", "type":
		b.WriteString(n.s)
		return
	case "sel":
		n.kids[0].render(b)
		b.WriteString("." + n.s)
		return
	}
	b.WriteString(n.k)
	if n.s != "" {
		b.WriteString(":" + n.s)
	}
	b.WriteString("(")
	for i, x := range n.kids {
		if i > 0 {
			b.WriteString(", ")
		}
		x.render(b)
	}
	b.WriteString(")")
}

type normer struct {
	info *types.Info
	pkg  *types.Package
	fold map[types.Object]*ai.Term // package variables that never change
}

func (z *normer) qual(p *types.Package) string {
	if p == z.pkg {
		return ""
	}
	return p.Path()
}

func (z *normer) typ(t types.Type) *nd {
	return &nd{k: "type", s: types.TypeString(t, z.qual)}
}

func (z *normer) fkey(f *types.Func) string {
	if f.Pkg() == z.pkg {
		name := f.Name()
		if strings.HasPrefix(name, "vr_") {
			return strings.TrimPrefix(strings.Replace(name[3:], "_", ".", 1), ".")
		}
		if sig := f.Type().(*types.Signature); sig.Recv() != nil {
			t := sig.Recv().Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok {
				return n.Obj().Name() + "." + name
			}
		}
		return name
	}
	return f.FullName()
}

func kconst(s string) *nd { return &nd{k: "const", s: s} }

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (n *nd) intConst() (int64, bool) {
	if n.k != "const" || n.s == "" || !isInt(n.tp) {
		return 0, false
	}
	var v int64
	if _, err := fmt.Sscanf(n.s, "%d", &v); err != nil {
		return 0, false
	}
	return v, true
}

func (z *normer) expr(e ast.Expr) *nd {
	n := z.expr0(e)
	if n.tp == nil {
		n.tp = z.info.TypeOf(e)
	}
	if n.pos == 0 {
		n.pos = e.Pos()
	}
	return n
}

func (z *normer) expr0(e ast.Expr) *nd {
	if tv, ok := z.info.Types[e]; ok {
		if tv.Value != nil {
			s := tv.Value.ExactString()
			if tv.Value.Kind() == constant.String {
				s = constant.StringVal(tv.Value)
				if a, ok := ai.StrAlias[s]; ok {
					s = a
				}
				s = "\"" + s
			}
			t := tv.Type
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				t = types.Default(t)
			}
			return &nd{k: "const", s: s, tp: t}
		}
		if tv.IsNil() {
			return kconst("nil")
		}
		if tv.IsType() {
			return z.typ(tv.Type)
		}
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return z.expr(x.X)
	case *ast.Ident:
		if x.Name == "_" {
			return &nd{k: "blank"}
		}
		o := z.info.ObjectOf(x)
		switch v := o.(type) {
		case *types.Var:
			if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				if t := z.fold[v]; t != nil {
					switch {
					case t.IsInt():
						return &nd{k: "const", s: fmt.Sprint(t.K), tp: v.Type()}
					case t.IsBool():
						return &nd{k: "const", s: fmt.Sprint(t.True()), tp: v.Type()}
					}
				}
				return &nd{k: "glob", s: v.Name()}
			}
			return &nd{k: "var", obj: v, tp: v.Type()}
		case *types.Func:
			return &nd{k: "glob", s: z.fkey(v)}
		}
		return &nd{k: "glob", s: x.Name}
	case *ast.SelectorExpr:
		if sel, ok := z.info.Selections[x]; ok {
			if sel.Kind() == types.FieldVal {
				return &nd{k: "sel", s: x.Sel.Name, kids: []*nd{z.expr(x.X)}}
			}
			f := sel.Obj().(*types.Func)
			return &nd{k: "meth", s: z.fkey(f), kids: []*nd{z.expr(x.X)}}
		}
		if f, ok := z.info.Uses[x.Sel].(*types.Func); ok {
			return &nd{k: "glob", s: z.fkey(f)}
		}
		return &nd{k: "glob", s: exprStr(x)}
	case *ast.CallExpr:
		if tv := z.info.Types[x.Fun]; tv.IsType() {
			return &nd{k: "conv", s: types.TypeString(tv.Type, z.qual), kids: []*nd{z.expr(x.Args[0])}}
		}
		f := z.expr(x.Fun)
		n := &nd{k: "call"}
		switch f.k {
		case "glob":
			n.s = f.s
		case "meth":
			n.s = f.s
			recv := f.kids[0]
			if recv.k == "&" || recv.k == "star" {
				recv = recv.kids[0]
			}
			n.kids = append(n.kids, recv)
		default:
			n.s = "*"
			n.kids = append(n.kids, f)
		}
		for i, a := range x.Args {
			k := z.expr(a)
			if strings.Contains(n.s, ".") && i == 0 && f.k == "glob" && (k.k == "&" || k.k == "star") {
				k = k.kids[0]
			}
			n.kids = append(n.kids, k)
		}
		if x.Ellipsis.IsValid() {
			n.s += "..."
		}
		return n
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return z.not(z.expr(x.X))
		}
		if x.Op == token.AND {
			return &nd{k: "&", kids: []*nd{z.expr(x.X)}}
		}
		return &nd{k: "un", s: x.Op.String(), kids: []*nd{z.expr(x.X)}}
	case *ast.BinaryExpr:
		a, b := z.expr(x.X), z.expr(x.Y)
		switch x.Op {
		case token.LAND, token.LOR:
			n := &nd{k: x.Op.String()}
			for _, y := range []*nd{a, b} {
				if y.k == "const" && (y.s == "true") == (x.Op == token.LAND) {
					continue
				}
				if y.k == n.k {
					n.kids = append(n.kids, y.kids...)
				} else {
					n.kids = append(n.kids, y)
				}
			}
			n.kids = dedupe(n.kids)
			if len(n.kids) == 1 {
				return n.kids[0]
			}
			return n
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return z.cmp(x.Op, a, b)
		}
		return &nd{k: "bin", s: x.Op.String(), kids: []*nd{a, b}}
	case *ast.StarExpr:
		return &nd{k: "star", kids: []*nd{z.expr(x.X)}}
	case *ast.IndexExpr:
		return &nd{k: "idx", kids: []*nd{z.expr(x.X), z.expr(x.Index)}}
	case *ast.SliceExpr:
		n := &nd{k: "slice", kids: []*nd{z.expr(x.X)}}
		for _, y := range []ast.Expr{x.Low, x.High, x.Max} {
			if y == nil {
				n.kids = append(n.kids, &nd{k: "none"})
			} else {
				n.kids = append(n.kids, z.expr(y))
			}
		}
		if c, ok := n.kids[1].intConst(); ok && c == 0 {
			n.kids[1] = &nd{k: "none"}
		}
		return n
	case *ast.TypeAssertExpr:
		n := &nd{k: "assert", kids: []*nd{z.expr(x.X)}}
		if x.Type != nil {
			n.s = types.TypeString(z.info.TypeOf(x.Type), z.qual)
		}
		return n
	case *ast.CompositeLit:
		t := z.info.TypeOf(x)
		n := &nd{k: "lit", s: types.TypeString(t, z.qual)}
		st, isStruct := t.Underlying().(*types.Struct)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				key := ""
				var kk *nd
				if isStruct {
					key = kv.Key.(*ast.Ident).Name
				} else {
					kk = z.expr(kv.Key)
				}
				f := &nd{k: "kv", s: key, kids: []*nd{z.expr(kv.Value)}, pos: el.Pos()}
				if kk != nil {
					f.kids = append(f.kids, kk)
				}
				n.kids = append(n.kids, f)
				continue
			}
			if isStruct {
				n.kids = append(n.kids, &nd{k: "kv", s: st.Field(i).Name(), kids: []*nd{z.expr(el)}, pos: el.Pos()})
				continue
			}
			n.kids = append(n.kids, z.expr(el))
		}
		if isStruct {
			sort.SliceStable(n.kids, func(i, j int) bool { return n.kids[i].s < n.kids[j].s })
			// fields left out are zero
			var ks []*nd
			for _, k := range n.kids {
				if !isZero(k.kids[0]) {
					ks = append(ks, k)
				}
			}
			n.kids = ks
		}
		return n
	case *ast.FuncLit:
		n := &nd{k: "func", s: types.TypeString(z.info.TypeOf(x), z.qual)}
		ps := &nd{k: "params"}
		sig := z.info.TypeOf(x).(*types.Signature)
		for i := 0; i < sig.Params().Len(); i++ {
			ps.kids = append(ps.kids, &nd{k: "var", obj: sig.Params().At(i), tp: sig.Params().At(i).Type()})
		}
		n.kids = []*nd{ps, z.list(x.Body.List)}
		return n
	}
	return &nd{k: fmt.Sprintf("%T", e)}
}

// dedupe drops repeated pure operands of a conjunction or disjunction.
func dedupe(ks []*nd) []*nd {
	var out []*nd
next:
	for _, k := range ks {
		if quiet(k) {
			for _, o := range out {
				if sameNd(k, o) {
					continue next
				}
			}
		}
		out = append(out, k)
	}
	return out
}

// quiet: evaluating the expression has no effect worth keeping.
func quiet(n *nd) bool {
	if n.k == "call" {
		switch {
		case n.s == "len" || n.s == "cap" || n.s == "min" || n.s == "max":
		case !strings.Contains(n.s, ".") && n.s != "*" && n.s != "append" && n.s != "copy" && n.s != "delete" && n.s != "panic":
			// a plain function of the package
		case strings.HasPrefix(n.s, "strings.") || strings.HasPrefix(n.s, "unicode") || strings.HasPrefix(n.s, "slices.Contains"):
		default:
			return false
		}
	}
	if n.k == "func" {
		return false
	}
	for _, k := range n.kids {
		if !quiet(k) {
			return false
		}
	}
	return true
}

func sameNd(a, b *nd) bool {
	if a.k != b.k || a.s != b.s || a.obj != b.obj || len(a.kids) != len(b.kids) {
		return false
	}
	for i := range a.kids {
		if !sameNd(a.kids[i], b.kids[i]) {
			return false
		}
	}
	return true
}

func exprStr(x *ast.SelectorExpr) string {
	if id, ok := x.X.(*ast.Ident); ok {
		return id.Name + "." + x.Sel.Name
	}
	return "?." + x.Sel.Name
}

func isZero(n *nd) bool {
	if n.k == "const" {
		return n.s == "0" || n.s == "nil" || n.s == "false" || n.s == "\""
	}
	return n.k == "zero"
}

func isLen(n *nd) bool { return n.k == "call" && n.s == "len" }

func mkInt(v int64) *nd { return &nd{k: "const", s: fmt.Sprint(v), tp: types.Typ[types.Int]} }

func (z *normer) cmp(op token.Token, a, b *nd) *nd {
	if a.k == "const" && b.k != "const" && (op == token.EQL || op == token.NEQ) {
		a, b = b, a
	}
	switch op {
	case token.GTR:
		a, b, op = b, a, token.LSS
	case token.GEQ:
		a, b, op = b, a, token.LEQ
	}
	ints := isInt(a.tp) && isInt(b.tp)
	if x, ok := a.intConst(); ok {
		if y, ok := b.intConst(); ok {
			res := map[token.Token]bool{token.LSS: x < y, token.LEQ: x <= y, token.EQL: x == y, token.NEQ: x != y}[op]
			return &nd{k: "const", s: fmt.Sprint(res)}
		}
	}
	if op == token.LEQ && ints {
		if c, ok := b.intConst(); ok {
			b, op = mkInt(c+1), token.LSS
		} else if c, ok := a.intConst(); ok {
			a, op = mkInt(c-1), token.LSS
		}
	}
	if op == token.EQL || op == token.NEQ {
		x := a
		if b.k == "const" && b.s == "\"" && isString(a.tp) {
			x = &nd{k: "call", s: "len", kids: []*nd{a}, tp: types.Typ[types.Int]}
			b = mkInt(0)
			if x.kids[0].tp == nil {
				x.kids[0].tp = a.tp
			}
		}
		if c, ok := b.intConst(); ok && c == 0 && isLen(x) {
			if op == token.EQL {
				return &nd{k: "cmp", s: "<", kids: []*nd{x, mkInt(1)}}
			}
			return &nd{k: "cmp", s: "<", kids: []*nd{mkInt(0), x}}
		}
		if b.k == "const" && (b.s == "true" || b.s == "false") {
			if (b.s == "true") == (op == token.EQL) {
				return a
			}
			return z.not(a)
		}
	}
	return &nd{k: "cmp", s: op.String(), kids: []*nd{a, b}}
}

func (z *normer) not(n *nd) *nd {
	switch n.k {
	case "not":
		return n.kids[0]
	case "&&", "||":
		m := &nd{k: map[string]string{"&&": "||", "||": "&&"}[n.k], pos: n.pos}
		for _, k := range n.kids {
			m.kids = append(m.kids, z.not(k))
		}
		return m
	case "cmp":
		a, b := n.kids[0], n.kids[1]
		switch n.s {
		case "==":
			return &nd{k: "cmp", s: "!=", kids: n.kids, pos: n.pos}
		case "!=":
			return &nd{k: "cmp", s: "==", kids: n.kids, pos: n.pos}
		case "<":
			return z.cmp(token.LEQ, b, a)
		case "<=":
			return z.cmp(token.LSS, b, a)
		}
	case "const":
		if n.s == "true" {
			return kconst("false")
		}
		if n.s == "false" {
			return kconst("true")
		}
	}
	return &nd{k: "not", kids: []*nd{n}, pos: n.pos}
}

// list normalises a statement list.
func (z *normer) list(ss []ast.Stmt) *nd {
	n := &nd{k: "list"}
	for _, s := range ss {
		n.kids = append(n.kids, z.stmt(s)...)
	}
	// if c {...; return} else {B} is the same as if c {...; return}; B
	var out []*nd
	var add func(k *nd)
	add = func(k *nd) {
		if k.k == "if" && len(k.kids[2].kids) > 0 && leaves(k.kids[1]) {
			e := k.kids[2]
			out = append(out, &nd{k: "if", kids: []*nd{k.kids[0], k.kids[1], {k: "list"}}, pos: k.pos})
			for _, x := range e.kids {
				add(x)
			}
			return
		}
		out = append(out, k)
	}
	for _, k := range n.kids {
		add(k)
	}
	n.kids = out
	return n
}

// leaves reports whether control never falls out of the end of a list.
func leaves(l *nd) bool {
	if len(l.kids) == 0 {
		return false
	}
	switch x := l.kids[len(l.kids)-1]; x.k {
	case "ret", "branch":
		return true
	case "expr":
		return x.kids[0].k == "call" && x.kids[0].s == "panic"
	}
	return false
}

func (z *normer) stmt(s ast.Stmt) []*nd {
	one := func(k, str string, kids ...*nd) []*nd {
		return []*nd{{k: k, s: str, kids: kids, pos: s.Pos()}}
	}
	switch x := s.(type) {
	case nil, *ast.EmptyStmt:
		return nil
	case *ast.BlockStmt:
		return z.list(x.List).kids
	case *ast.ExprStmt:
		return one("expr", "", z.expr(x.X))
	case *ast.IncDecStmt:
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		v := z.expr(x.X)
		return one("asg", "1", v, &nd{k: "bin", s: op, kids: []*nd{v, mkInt(1)}, tp: v.tp})
	case *ast.AssignStmt:
		if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
			v := z.expr(x.Lhs[0])
			return one("asg", "1", v, &nd{k: "bin", s: strings.TrimSuffix(x.Tok.String(), "="), kids: []*nd{v, z.expr(x.Rhs[0])}, tp: v.tp})
		}
		blank := true
		for _, l := range x.Lhs {
			if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
				blank = false
			}
		}
		if blank {
			pure := true
			for _, r := range x.Rhs {
				ast.Inspect(r, func(n ast.Node) bool {
					switch c := n.(type) {
					case *ast.FuncLit:
						return false
					case *ast.CallExpr:
						tv := z.info.Types[c.Fun]
						if !tv.IsType() && !tv.IsBuiltin() {
							pure = false
						}
					case *ast.UnaryExpr:
						if c.Op == token.ARROW {
							pure = false
						}
					}
					return true
				})
			}
			if pure {
				return nil
			}
		}
		if len(x.Lhs) == len(x.Rhs) && len(x.Lhs) > 1 && x.Tok == token.DEFINE {
			var out []*nd
			for i := range x.Lhs {
				out = append(out, &nd{k: "asg", s: "1", kids: []*nd{z.expr(x.Lhs[i]), z.expr(x.Rhs[i])}, pos: s.Pos()})
			}
			return out
		}
		n := one("asg", fmt.Sprint(len(x.Lhs)))
		for _, l := range x.Lhs {
			n[0].kids = append(n[0].kids, z.expr(l))
		}
		for _, r := range x.Rhs {
			n[0].kids = append(n[0].kids, z.expr(r))
		}
		return n
	case *ast.DeclStmt:
		g, ok := x.Decl.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			if ok && g.Tok == token.CONST {
				return nil
			}
			return one("decl", "")
		}
		var out []*nd
		for _, sp := range g.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, id := range vs.Names {
					out = append(out, &nd{k: "asg", s: "1", kids: []*nd{z.expr(id), zeroOf(z.info.TypeOf(id))}, pos: s.Pos()})
				}
				continue
			}
			if len(vs.Values) == len(vs.Names) {
				for i, id := range vs.Names {
					out = append(out, &nd{k: "asg", s: "1", kids: []*nd{z.expr(id), z.expr(vs.Values[i])}, pos: s.Pos()})
				}
				continue
			}
			n := &nd{k: "asg", s: fmt.Sprint(len(vs.Names)), pos: s.Pos()}
			for _, id := range vs.Names {
				n.kids = append(n.kids, z.expr(id))
			}
			n.kids = append(n.kids, z.expr(vs.Values[0]))
			out = append(out, n)
		}
		return out
	case *ast.IfStmt:
		out := z.stmt(x.Init)
		c := z.expr(x.Cond)
		th := z.list(x.Body.List)
		el := &nd{k: "list"}
		if x.Else != nil {
			el.kids = z.stmt(x.Else)
			el = relist(el)
		}
		if c.k == "not" && len(el.kids) > 0 {
			c, th, el = c.kids[0], el, th
		}
		// if a { if b { S } } is if a && b { S }
		if len(el.kids) == 0 && len(th.kids) == 1 && th.kids[0].k == "if" && len(th.kids[0].kids[2].kids) == 0 {
			in := th.kids[0]
			m := &nd{k: "&&", pos: c.pos}
			for _, y := range []*nd{c, in.kids[0]} {
				if y.k == "&&" {
					m.kids = append(m.kids, y.kids...)
				} else {
					m.kids = append(m.kids, y)
				}
			}
			c, th = m, in.kids[1]
		}
		if len(th.kids) == 0 && len(el.kids) == 0 && quiet(c) {
			return out
		}
		return append(out, &nd{k: "if", kids: []*nd{c, th, el}, pos: s.Pos()})
	case *ast.ForStmt:
		out := z.stmt(x.Init)
		c := &nd{k: "const", s: "true"}
		if x.Cond != nil {
			c = z.expr(x.Cond)
		}
		post := &nd{k: "list", kids: z.stmt(x.Post)}
		return append(out, &nd{k: "for", kids: []*nd{c, z.list(x.Body.List), post}, pos: s.Pos()})
	case *ast.RangeStmt:
		part := func(e ast.Expr) *nd {
			if e == nil {
				return &nd{k: "blank"}
			}
			return z.expr(e)
		}
		return one("range", "", z.expr(x.X), part(x.Key), part(x.Value), z.list(x.Body.List))
	case *ast.SwitchStmt:
		out := z.stmt(x.Init)
		tag := &nd{k: "none"}
		if x.Tag != nil {
			tag = z.expr(x.Tag)
		}
		n := &nd{k: "switch", pos: s.Pos()}
		n.kids = append(n.kids, tag)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			l := &nd{k: "alts"}
			for _, e := range cc.List {
				l.kids = append(l.kids, z.expr(e))
			}
			k := "case"
			if cc.List == nil {
				k = "default"
			}
			n.kids = append(n.kids, &nd{k: k, kids: []*nd{l, z.list(cc.Body)}, pos: cc.Pos()})
		}
		return append(out, n)
	case *ast.TypeSwitchStmt:
		out := z.stmt(x.Init)
		n := &nd{k: "tswitch", pos: s.Pos()}
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			n.kids = append(n.kids, z.expr(a.Rhs[0]))
		case *ast.ExprStmt:
			n.kids = append(n.kids, z.expr(a.X))
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			l := &nd{k: "alts"}
			for _, e := range cc.List {
				l.kids = append(l.kids, z.expr(e))
			}
			if o := z.info.Implicits[cc]; o != nil {
				l.kids = append(l.kids, &nd{k: "var", obj: o, tp: o.Type()})
			}
			k := "case"
			if cc.List == nil {
				k = "default"
			}
			n.kids = append(n.kids, &nd{k: k, kids: []*nd{l, z.list(cc.Body)}, pos: cc.Pos()})
		}
		return append(out, n)
	case *ast.ReturnStmt:
		n := one("ret", "")
		for _, r := range x.Results {
			n[0].kids = append(n[0].kids, z.expr(r))
		}
		return n
	case *ast.BranchStmt:
		lab := ""
		if x.Label != nil {
			lab = " L"
		}
		return one("branch", x.Tok.String()+lab)
	case *ast.LabeledStmt:
		return z.stmt(x.Stmt)
	case *ast.DeferStmt:
		return one("defer", "", z.expr(x.Call))
	case *ast.GoStmt:
		return one("go", "", z.expr(x.Call))
	}
	return one(fmt.Sprintf("%T", s), "")
}

func relist(l *nd) *nd { return &nd{k: "list", kids: l.kids} }

func zeroOf(t types.Type) *nd {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &nd{k: "const", s: "false", tp: t}
		case u.Info()&types.IsString != 0:
			return &nd{k: "const", s: "\"", tp: t}
		case u.Info()&types.IsNumeric != 0:
			return &nd{k: "const", s: "0", tp: t}
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return &nd{k: "const", s: "nil", tp: t}
	}
	return &nd{k: "zero", tp: t}
}

// aligner matches two normal forms under a one-to-one correspondence of local
// variables.
type aligner struct {
	r      *Repo
	prefix string
	cr, rc map[types.Object]types.Object
	trail  []types.Object // bound variables of the current side
	edits  []edit
	path   []*nd // enclosing nodes (of the reference side)
	over   bool
	defC   map[types.Object]*nd
	defR   map[types.Object]*nd
}

type edit struct {
	kind string // "expr", "del", "add", "swap"
	c, r *nd
	path []*nd
	next *nd // statement after a deleted/added one
	last bool
}

func (a *aligner) bind(c, r types.Object) bool {
	x, ok := a.cr[c]
	y, ok2 := a.rc[r]
	if ok || ok2 {
		return ok && ok2 && x == r && y == c
	}
	if !types.Identical(c.Type(), r.Type()) && c.Type().String() != r.Type().String() {
		return false
	}
	a.cr[c], a.rc[r] = r, c
	a.trail = append(a.trail, c)
	return true
}

func (a *aligner) undo(n int) {
	for len(a.trail) > n {
		c := a.trail[len(a.trail)-1]
		a.trail = a.trail[:len(a.trail)-1]
		delete(a.rc, a.cr[c])
		delete(a.cr, c)
	}
}

// try runs eq and keeps its bindings only on success.
func (a *aligner) try(c, r *nd) bool {
	n := len(a.trail)
	if a.eq(c, r) {
		return true
	}
	a.undo(n)
	return false
}

func commutes(n *nd) bool {
	switch n.k {
	case "cmp":
		return n.s == "==" || n.s == "!="
	case "bin":
		switch n.s {
		case "+":
			return isInt(n.tp)
		case "*", "&", "|", "^":
			return true
		}
	case "call":
		return n.s == "min" || n.s == "max"
	}
	return false
}

func (a *aligner) eq(c, r *nd) bool {
	if c.k != r.k || c.s != r.s || len(c.kids) != len(r.kids) {
		return false
	}
	if c.k == "var" {
		return a.bind(c.obj, r.obj)
	}
	if commutes(c) && len(c.kids) == 2 {
		n := len(a.trail)
		if a.eq(c.kids[0], r.kids[0]) && a.eq(c.kids[1], r.kids[1]) {
			return true
		}
		a.undo(n)
		return a.eq(c.kids[0], r.kids[1]) && a.eq(c.kids[1], r.kids[0])
	}
	for i := range c.kids {
		if !a.eq(c.kids[i], r.kids[i]) {
			return false
		}
	}
	return true
}

func (a *aligner) note(e edit) {
	e.path = append([]*nd(nil), a.path...)
	a.edits = append(a.edits, e)
	if len(a.edits) > 4 {
		a.over = true
	}
}

func (a *aligner) diff(c, r *nd) {
	if a.over || a.try(c, r) {
		return
	}
	a.path = append(a.path, r)
	defer func() { a.path = a.path[:len(a.path)-1] }()
	if c.k == r.k && (c.k == "list" || c.k == "&&" || c.k == "||" || c.k == "switch" && len(c.kids) != len(r.kids) || c.k == "tswitch" && len(c.kids) != len(r.kids) || c.k == "alts") {
		a.lists(c.kids, r.kids)
		return
	}
	if c.k == r.k && c.s == r.s && len(c.kids) == len(r.kids) && len(c.kids) > 0 && c.k != "var" {
		if c.k == "lit" || c.k == "kv" || c.k == "call" || c.k == "bin" || c.k == "cmp" {
			// exchanged operands
			if i, j, ok := a.swapped(c.kids, r.kids); ok {
				a.note(edit{kind: "swap", c: c.kids[i], r: r.kids[i]})
				_ = j
				return
			}
		}
		n, m := len(a.edits), len(a.trail)
		for i := range c.kids {
			a.diff(c.kids[i], r.kids[i])
		}
		if c.k != "cmp" || len(a.edits) <= n+1 {
			return
		}
		a.edits = a.edits[:n]
		a.undo(m)
		a.over = false
	}
	a.path = a.path[:len(a.path)-1]
	a.note(edit{kind: "expr", c: c, r: r})
	a.path = append(a.path, r)
}

// swapped reports whether exactly two kids changed places.
func (a *aligner) swapped(c, r []*nd) (int, int, bool) {
	n := len(a.trail)
	var bad []int
	for i := range c {
		m := len(a.trail)
		if !a.eq(c[i], r[i]) {
			a.undo(m)
			bad = append(bad, i)
		}
	}
	if len(bad) == 2 && a.try(c[bad[0]], r[bad[1]]) && a.try(c[bad[1]], r[bad[0]]) {
		return bad[0], bad[1], true
	}
	a.undo(n)
	return 0, 0, false
}

// lists aligns statement (or operand) lists: equal ends are stripped, what
// remains is matched in order.
func (a *aligner) lists(c, r []*nd) {
	i := 0
	for i < len(c) && i < len(r) && a.try(c[i], r[i]) {
		i++
	}
	j := 0
	for j < len(c)-i && j < len(r)-i && a.try(c[len(c)-1-j], r[len(r)-1-j]) {
		j++
	}
	cm, rm := c[i:len(c)-j], r[i:len(r)-j]
	var next *nd
	if j > 0 {
		next = r[len(r)-j]
	}
	last := j == 0
	switch {
	case len(cm) == 0:
		for _, x := range rm {
			a.note(edit{kind: "del", r: x, next: next, last: last})
		}
	case len(rm) == 0:
		for _, x := range cm {
			a.note(edit{kind: "add", c: x, next: next, last: last})
		}
	case len(cm) == len(rm):
		if len(cm) == 2 && a.try(cm[0], rm[1]) && a.try(cm[1], rm[0]) {
			a.note(edit{kind: "swap", c: cm[0], r: rm[0]})
			return
		}
		for k := range cm {
			a.diff(cm[k], rm[k])
		}
	case len(a.path) > 0 && (a.path[len(a.path)-1].k == "&&" || a.path[len(a.path)-1].k == "||"):
		wrap := func(ks []*nd) *nd {
			if len(ks) == 1 {
				return ks[0]
			}
			return &nd{k: a.path[len(a.path)-1].k, kids: ks, pos: ks[0].pos}
		}
		a.note(edit{kind: "expr", c: wrap(cm), r: wrap(rm)})
	default:
		// one statement more or less, others changed inside
		a.over = true
	}
}

// linear writes an integer expression as a sum of rendered parts.
func (a *aligner) linear(n *nd, cur bool, sign int64, m map[string]int64) {
	if c, ok := n.intConst(); ok {
		m[""] += sign * c
		return
	}
	if n.k == "bin" && isInt(n.tp) {
		switch n.s {
		case "+":
			a.linear(n.kids[0], cur, sign, m)
			a.linear(n.kids[1], cur, sign, m)
			return
		case "-":
			a.linear(n.kids[0], cur, sign, m)
			a.linear(n.kids[1], cur, -sign, m)
			return
		}
	}
	m[a.canon(n, cur)] += sign
}

// canon renders with the variables of the reference.
func (a *aligner) canon(n *nd, cur bool) string {
	if n.k == "var" {
		o := n.obj
		if cur {
			if x, ok := a.cr[o]; ok {
				o = x
			} else {
				return fmt.Sprintf("new!%s@%d", o.Name(), o.Pos())
			}
		}
		return fmt.Sprintf("%s@%d", o.Name(), o.Pos())
	}
	s := n.k + ":" + n.s + "("
	for _, k := range n.kids {
		s += a.canon(k, cur) + ","
	}
	return s + ")"
}

// linDiff: the two integer expressions differ by a constant.
func (a *aligner) linDiff(c, r *nd) (int64, bool) {
	if !isInt(c.tp) || !isInt(r.tp) {
		return 0, false
	}
	m := map[string]int64{}
	a.linear(c, true, 1, m)
	a.linear(r, false, -1, m)
	for k, v := range m {
		if k != "" && v != 0 {
			return 0, false
		}
	}
	return m[""], true
}

// otherBound: two order comparisons of the same integer quantity with
// constants that hold for different values.
func (a *aligner) otherBound(c, r *nd) bool {
	form := func(n *nd, cur bool) (map[string]int64, bool) {
		if n.s != "<" && n.s != "<=" || !isInt(n.kids[0].tp) || !isInt(n.kids[1].tp) {
			return nil, false
		}
		m := map[string]int64{}
		a.linear(n.kids[0], cur, 1, m)
		a.linear(n.kids[1], cur, -1, m)
		if n.s == "<" {
			m[""]++
		}
		return m, true // m <= 0
	}
	mc, ok1 := form(c, true)
	mr, ok2 := form(r, false)
	if !ok1 || !ok2 {
		return false
	}
	pos, neg, n := true, true, 0
	for k := range mc {
		if _, ok := mr[k]; !ok && mc[k] != 0 {
			return false
		}
	}
	for k, v := range mr {
		if k == "" || v == 0 {
			continue
		}
		n++
		if mc[k] != v {
			pos = false
		}
		if mc[k] != -v {
			neg = false
		}
	}
	if n == 0 {
		return false
	}
	return pos && mc[""] != mr[""] || neg
}

func (e edit) parent() *nd {
	if len(e.path) == 0 {
		return &nd{}
	}
	return e.path[len(e.path)-1]
}

// within reports whether the edit lies in a node of the given kinds.
func (e edit) within(ks ...string) bool {
	for _, p := range e.path {
		for _, k := range ks {
			if p.k == k || p.k == "call" && p.s == k {
				return true
			}
		}
	}
	return false
}

// nullness: a condition that only asks for emptiness or nil-ness.
func emptiness(c *nd) bool {
	switch c.k {
	case "cmp":
		for _, k := range c.kids {
			if isLen(k) {
				o := c.kids[0]
				if o == k {
					o = c.kids[1]
				}
				if v, ok := o.intConst(); ok && v <= 2 {
					return true
				}
			}
			if k.k == "const" && k.s == "nil" {
				for _, o := range c.kids {
					if o != k && o.tp != nil {
						switch o.tp.Underlying().(type) {
						case *types.Slice, *types.Map:
							return true
						}
					}
				}
			}
		}
	case "&&", "||":
		for _, k := range c.kids {
			if !emptiness(k) {
				return false
			}
		}
		return true
	}
	return false
}

// harmless calls: removing or adding them changes no result.
func harmlessCall(n *nd) bool {
	if n.k != "call" {
		return false
	}
	return strings.HasSuffix(n.s, ".Grow") || strings.HasPrefix(n.s, "sort.") || strings.HasPrefix(n.s, "slices.") || n.s == "clear" || strings.Contains(n.s, "Print")
}

// emptySlice: an empty slice, which is as good as none.
func emptySlice(n *nd) bool {
	if n.tp == nil {
		return false
	}
	if _, ok := n.tp.Underlying().(*types.Slice); !ok {
		return false
	}
	switch {
	case n.k == "lit":
		return len(n.kids) == 0
	case n.k == "call" && n.s == "make" && len(n.kids) > 1:
		return isZero(n.kids[1])
	}
	return false
}

func (a *aligner) table(s string) bool {
	_, ok := a.r.refFn[a.prefix+s]
	return ok
}

// judge decides whether an edit certainly changes what is computed.
func (a *aligner) judge(e edit) (bool, string) {
	p := e.parent()
	text := func(what string) (bool, string) { return true, what }
	// capacities and messages are not results
	if p.k == "call" && p.s == "make" && len(p.kids) > 0 {
		idx := -1
		for i, k := range p.kids {
			if k == e.r {
				idx = i
			}
		}
		if idx >= 2 || idx == 1 && strings.HasPrefix(p.kids[0].s, "map") {
			return false, "capacity"
		}
	}
	switch e.kind {
	case "swap":
		if p.k == "list" {
			return a.conflict(e.c, e.r)
		}
		if commutes(p) || p.k == "call" && (strings.Contains(p.s, "Equal") || p.s == "min" || p.s == "max") {
			return false, ""
		}
		if p.k == "&&" || p.k == "||" || p.k == "alts" || p.k == "switch" || p.k == "tswitch" {
			return false, ""
		}
		return text(fmt.Sprintf("%s and %s are exchanged", e.c, e.r))
	case "del":
		return a.judgeDel(e)
	case "add":
		return a.judgeAdd(e)
	}
	c, r := e.c, e.r
	if e.within("errors.New", "fmt.Errorf", "panic") && c.k == "const" {
		return false, "message"
	}
	if c.k == "none" || r.k == "none" {
		return false, ""
	}
	// another spelling of the same value
	for _, x := range []*nd{a.resolve(c, true)} {
		if x != nil && a.try(x, r) {
			return false, ""
		}
	}
	if x := a.resolve(r, false); x != nil && a.try(c, x) {
		return false, ""
	}
	inCond := func() bool { // the test of a counting loop
		for i := len(e.path) - 1; i >= 0; i-- {
			switch e.path[i].k {
			case "cmp":
				continue
			case "for":
				return true
			}
			return false
		}
		return false
	}
	switch {
	case c.k == "const" && r.k == "const":
		if c.s == r.s {
			return false, ""
		}
		return text(fmt.Sprintf("constant %s instead of %s", c, r))
	case (c.k == "cmp" || c.k == "bin" || c.k == "un") && c.k == r.k && len(c.kids) == len(r.kids):
		same := true
		n := len(a.trail)
		for i := range c.kids {
			if !a.eq(c.kids[i], r.kids[i]) {
				same = false
			}
		}
		if same && c.s != r.s {
			if c.k == "cmp" && inCond() && (c.s == "!=" || r.s == "!=") {
				return false, ""
			}
			return text(fmt.Sprintf("operator %s instead of %s on %s", c.s, r.s, r.kids[0]))
		}
		a.undo(n)
		if c.k == "cmp" && len(c.kids) == 2 {
			// a < b against b < a, or <= against its converse
			if a.try(c.kids[0], r.kids[1]) && a.try(c.kids[1], r.kids[0]) {
				if inCond() {
					return false, ""
				}
				return text(fmt.Sprintf("test %s instead of %s", c, r))
			}
			a.undo(n)
		}
	}
	if k, ok := a.linDiff(c, r); ok {
		if k == 0 {
			return false, ""
		}
		return text(fmt.Sprintf("%s instead of %s", c, r))
	}
	z := &normer{}
	if boolT(c) && boolT(r) {
		if a.try(z.not(c), r) {
			return text(fmt.Sprintf("test %s is negated", r))
		}
		// an operand dropped or added
		for _, w := range []struct {
			big, small *nd
			cur        bool
		}{{r, c, false}, {c, r, true}} {
			if w.big.k != "&&" && w.big.k != "||" {
				continue
			}
			for i, k := range w.big.kids {
				ok := false
				if w.cur {
					ok = a.try(k, w.small)
				} else {
					ok = a.try(w.small, k)
				}
				if !ok || len(w.big.kids) != 2 {
					continue
				}
				other := w.big.kids[1-i]
				if emptiness(other) && !(several(other) && e.guardsReturn()) {
					return false, ""
				}
				if w.cur {
					return text(fmt.Sprintf("the test also depends on %s", other))
				}
				return text(fmt.Sprintf("the test no longer depends on %s", other))
			}
		}
		if (c.k == "&&" || c.k == "||") && (r.k == "&&" || r.k == "||") && c.k != r.k && len(c.kids) == len(r.kids) {
			same := true
			for i := range c.kids {
				if !a.try(c.kids[i], r.kids[i]) {
					same = false
				}
			}
			if same {
				return text(fmt.Sprintf("%s instead of %s in %s", c.k, r.k, r))
			}
		}
		if (c.k == "&&" || c.k == "||") && (r.k == "&&" || r.k == "||") && c.k != r.k {
			// the same operands under another connective
			flat := func(n *nd, k string) []*nd {
				var out []*nd
				for _, x := range n.kids {
					if x.k == k {
						out = append(out, x.kids...)
					} else {
						out = append(out, x)
					}
				}
				return out
			}
			for _, w := range [][2][]*nd{{c.kids, flat(r, c.k)}, {flat(c, r.k), r.kids}} {
				n := len(a.trail)
				same := len(w[0]) == len(w[1])
				for i := 0; same && i < len(w[0]); i++ {
					same = a.try(w[0][i], w[1][i])
				}
				if same {
					return text(fmt.Sprintf("%s instead of %s in %s", c.k, r.k, r))
				}
				a.undo(n)
			}
		}
		if c.k == "cmp" && r.k == "cmp" && len(c.kids) == 2 && len(r.kids) == 2 && !inCond() {
			if ok := a.otherBound(c, r); ok {
				return text(fmt.Sprintf("test %s instead of %s", c, r))
			}
		}
		if c.k == "const" && r.k != "const" {
			return text(fmt.Sprintf("constant %s instead of %s", c, r))
		}
	}
	if a.cuts(c, r, true) {
		return text(fmt.Sprintf("only part of %s is taken (%s)", r, c))
	}
	if a.cuts(r, c, false) {
		return text(fmt.Sprintf("all of %s is taken, not only a part (%s)", c, r))
	}
	if r.k == "for" && c.k == "expr" && len(r.kids[1].kids) == 0 && len(r.kids[2].kids) == 0 && a.try(c.kids[0], r.kids[0]) {
		return text(fmt.Sprintf("%s runs once instead of until it fails", c.kids[0].s))
	}
	for _, w := range [][2]*nd{{c, r}, {r, c}} {
		// a sum against an extreme
		x, y := w[0], w[1]
		if x.k == "call" && (x.s == "max" || x.s == "min") && y.k == "bin" && y.s == "+" && len(x.kids) == 2 && len(y.kids) == 2 {
			n := len(a.trail)
			eq := func(p, q *nd) bool {
				if x == c {
					return a.try(p, q)
				}
				return a.try(q, p)
			}
			if eq(x.kids[0], y.kids[0]) && eq(x.kids[1], y.kids[1]) || eq(x.kids[0], y.kids[1]) && eq(x.kids[1], y.kids[0]) {
				return text(fmt.Sprintf("%s instead of %s", c, r))
			}
			a.undo(n)
		}
	}
	switch {
	case c.k == "var" && r.k == "var":
		if _, ok := a.cr[c.obj]; ok {
			if _, ok := a.rc[r.obj]; ok && c.tp != nil && r.tp != nil && types.Identical(c.tp, r.tp) {
				return text(fmt.Sprintf("variable %s instead of %s", c, r))
			}
		}
	case c.k == "sel" && r.k == "sel" && a.try(c.kids[0], r.kids[0]):
		return text(fmt.Sprintf("field %s instead of %s", c, r))
	case c.k == "glob" && r.k == "glob":
		return text(fmt.Sprintf("%s instead of %s", c, r))
	case c.k == "call" && r.k == "call" && c.s != r.s && len(c.kids) == len(r.kids):
		same := true
		for i := range c.kids {
			if !a.try(c.kids[i], r.kids[i]) {
				same = false
			}
		}
		if same && !harmlessCall(c) && !harmlessCall(r) && (a.table(c.s) && a.table(r.s) || strings.Contains(c.s, ".") && strings.Contains(r.s, ".") && !a.table(c.s) && !a.table(r.s) || (c.s == "min" || c.s == "max") && (r.s == "min" || r.s == "max")) {
			return text(fmt.Sprintf("call of %s instead of %s", c.s, r.s))
		}
	case c.k == "branch" && r.k == "branch":
		return text(fmt.Sprintf("%s instead of %s", c.s, r.s))
	}
	if r.k == "call" && (strings.HasPrefix(r.s, "strings.") || a.table(r.s)) {
		for _, k := range r.kids {
			if k.tp != nil && c.tp != nil && types.Identical(k.tp, c.tp) && types.Identical(r.tp, c.tp) && a.try(c, k) {
				return text(fmt.Sprintf("%s without %s", c, r.s))
			}
		}
	}
	if c.k == "call" && (strings.HasPrefix(c.s, "strings.") || a.table(c.s)) {
		for _, k := range c.kids {
			if k.tp != nil && r.tp != nil && types.Identical(k.tp, r.tp) && types.Identical(c.tp, r.tp) && a.try(k, r) {
				return text(fmt.Sprintf("%s goes through %s", r, c.s))
			}
		}
	}
	return false, ""
}

func boolT(n *nd) bool {
	switch n.k {
	case "cmp", "&&", "||", "not":
		return true
	}
	if n.k == "const" {
		return n.s == "true" || n.s == "false"
	}
	if n.tp == nil {
		return false
	}
	b, ok := n.tp.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// resolve gives the defining expression of a variable assigned once.
func (a *aligner) resolve(n *nd, cur bool) *nd {
	if n.k != "var" {
		return nil
	}
	m := a.defR
	if cur {
		m = a.defC
	}
	return m[n.obj]
}

func (a *aligner) judgeDel(e edit) (bool, string) {
	r := e.r
	p := e.parent()
	if p.k == "&&" || p.k == "||" {
		if emptiness(r) {
			return false, ""
		}
		return true, fmt.Sprintf("the test no longer depends on %s", r)
	}
	switch r.k {
	case "asg":
		lhs := r.kids[0]
		if lhs.k == "blank" || len(r.kids) == 2 && a.try(lhs, r.kids[1]) {
			return false, ""
		}
		for _, k := range r.kids[1:] {
			if harmlessCall(k) || emptySlice(k) {
				return false, ""
			}
		}
		return true, fmt.Sprintf("%s is no longer assigned here (%s)", lhs, r)
	case "expr":
		if harmlessCall(r.kids[0]) {
			return false, ""
		}
		return true, fmt.Sprintf("%s is no longer called here", r.kids[0].s)
	case "if":
		if emptiness(r.kids[0]) && !severalDecides(r) {
			return false, ""
		}
		return true, fmt.Sprintf("the case %s is no longer handled", r.kids[0])
	case "for", "range", "switch", "tswitch":
		return true, "a " + r.k + " statement is gone"
	case "case":
		return true, fmt.Sprintf("the case %s is gone", r.kids[0])
	case "branch", "ret":
		if e.last && (r.s == "continue" || r.k == "ret" && len(r.kids) == 0 || r.s == "break" && !inLoopDirect(e)) {
			return false, ""
		}
		return true, fmt.Sprintf("%s%s is gone", r.k, r.s)
	}
	return false, ""
}

// several: a test for more than one.
func several(c *nd) bool {
	if c.k != "cmp" || c.s != "<" || len(c.kids) != 2 || !isLen(c.kids[1]) {
		return false
	}
	v, ok := c.kids[0].intConst()
	return ok && v >= 1
}

// guardsReturn: the edit is in the test of an if that decides about returning.
func (e edit) guardsReturn() bool {
	for i := len(e.path) - 1; i >= 0; i-- {
		switch p := e.path[i]; p.k {
		case "&&", "||":
			continue
		case "if":
			return leaves(p.kids[1]) || returns(p.kids[1])
		}
		return false
	}
	return false
}

func returns(n *nd) bool {
	if n.k == "ret" {
		return true
	}
	for _, k := range n.kids {
		if k != nil && returns(k) {
			return true
		}
	}
	return false
}

// severalDecides: having several of something is by itself the answer.
func severalDecides(r *nd) bool {
	c, b := r.kids[0], r.kids[1]
	return several(c) && len(b.kids) == 1 && b.kids[0].k == "ret" && len(b.kids[0].kids) == 1 && b.kids[0].kids[0].s == "true"
}

// cuts reports whether c takes only part of r.
func (a *aligner) cuts(c, r *nd, fwd bool) bool {
	if c.k != "slice" || len(c.kids) < 3 {
		return false
	}
	if fwd && !a.try(c.kids[0], r) || !fwd && !a.try(r, c.kids[0]) {
		return false
	}
	lo, hi := c.kids[1], c.kids[2]
	if v, ok := lo.intConst(); lo.k != "none" && ok && v > 0 {
		return true
	}
	if _, ok := hi.intConst(); hi.k != "none" && ok {
		return true
	}
	if hi.k == "call" && hi.s == "min" {
		for _, k := range hi.kids {
			if _, ok := k.intConst(); ok {
				return true
			}
		}
	}
	return false
}

// inLoopDirect: a break at the end of a list ends a loop rather than a switch.
func inLoopDirect(e edit) bool {
	for i := len(e.path) - 1; i >= 0; i-- {
		switch e.path[i].k {
		case "for", "range":
			return true
		case "switch", "tswitch":
			return false
		}
	}
	return false
}

func (a *aligner) judgeAdd(e edit) (bool, string) {
	c := e.c
	p := e.parent()
	if p.k == "&&" || p.k == "||" {
		if emptiness(c) && !(several(c) && e.guardsReturn()) {
			return false, ""
		}
		return true, fmt.Sprintf("the test also depends on %s", c)
	}
	switch c.k {
	case "asg":
		lhs := c.kids[0]
		if len(c.kids) != 2 || isZero(c.kids[1]) || emptySlice(c.kids[1]) || a.try(lhs, c.kids[1]) {
			return false, ""
		}
		if lhs.k == "var" {
			if _, ok := a.cr[lhs.obj]; !ok {
				return false, ""
			}
		} else if lhs.k != "sel" && lhs.k != "idx" {
			return false, ""
		}
		for _, k := range c.kids[1:] {
			if harmlessCall(k) {
				return false, ""
			}
		}
		return true, fmt.Sprintf("%s is also assigned here (%s)", lhs, c)
	case "expr":
		if x := c.kids[0]; x.s == "delete" || a.table(x.s) && !a.r.Pure(a.r.refFn[a.prefix+x.s]) {
			return true, fmt.Sprintf("%s is also called here", x.s)
		}
	case "branch":
		if !e.last {
			return false, ""
		}
		if c.s == "continue" || c.s == "break" && !inLoopDirect(e) {
			return false, ""
		}
		return true, fmt.Sprintf("%s is added", c.s)
	case "if":
		b := c.kids[1]
		if len(c.kids[2].kids) == 0 && len(b.kids) == 1 && (b.kids[0].k == "branch" || b.kids[0].k == "ret") && (a.selects(c.kids[0]) || answersLit(b.kids[0])) {
			return true, fmt.Sprintf("the case %s leaves early", c.kids[0])
		}
	}
	return false, ""
}

// answersLit: a return of a non-empty literal.
func answersLit(n *nd) bool {
	if n.k != "ret" {
		return false
	}
	for _, k := range n.kids {
		if k.k == "lit" && len(k.kids) > 0 && k.tp != nil {
			if _, ok := k.tp.Underlying().(*types.Slice); ok {
				return true
			}
		}
	}
	return false
}

// selects: a test that singles out values by a comparison of plain quantities.
func (a *aligner) selects(c *nd) bool {
	switch c.k {
	case "&&", "||":
		for _, k := range c.kids {
			if a.selects(k) {
				return true
			}
		}
		return false
	case "cmp":
		if emptiness(c) {
			return false
		}
		for _, k := range c.kids {
			if k.k == "const" && k.s != "nil" {
				for _, o := range c.kids {
					if o != k && (o.k == "sel" || o.k == "var") {
						return true
					}
				}
			}
		}
	}
	return false
}

// conflict: exchanging two statements matters when one assigns a variable the
// other uses.
func (a *aligner) conflict(x, y *nd) (bool, string) {
	writes := func(n *nd) map[types.Object]bool {
		out := map[types.Object]bool{}
		if n.k == "asg" {
			if n.kids[0].k == "var" {
				out[n.kids[0].obj] = true
			}
		}
		return out
	}
	var uses func(n *nd, o types.Object, top bool) bool
	uses = func(n *nd, o types.Object, top bool) bool {
		if n.k == "var" && n.obj == o {
			return true
		}
		for _, k := range n.kids {
			if uses(k, o, false) {
				return true
			}
		}
		return false
	}
	// both sides of the current function: x is its first statement, y (of the
	// reference) corresponds to the second
	for o := range writes(x) {
		if ro, ok := a.cr[o]; ok && uses(y, ro, true) {
			return true, fmt.Sprintf("%s is assigned before %s", o.Name(), y)
		}
	}
	for o := range writes(y) {
		if co, ok := a.rc[o]; ok && uses(x, co, true) {
			return true, fmt.Sprintf("%s is used before it is assigned (%s)", o.Name(), y)
		}
	}
	return false, ""
}

// singleDefs maps variables assigned exactly once to the pure expression they
// stand for.
func singleDefs(n *nd) map[types.Object]*nd {
	cnt := map[types.Object]int{}
	def := map[types.Object]*nd{}
	var walk func(n *nd)
	walk = func(n *nd) {
		switch n.k {
		case "asg":
			var nl int
			fmt.Sscanf(n.s, "%d", &nl)
			for i := 0; i < nl; i++ {
				if l := n.kids[i]; l.k == "var" {
					cnt[l.obj]++
					if nl == 1 && len(n.kids) == 2 && pureNd(n.kids[1]) {
						def[l.obj] = n.kids[1]
					}
				}
			}
		case "range":
			for i := 1; i <= 2; i++ {
				if l := n.kids[i]; l.k == "var" {
					cnt[l.obj]++
					if i == 2 && n.kids[1].k == "var" && pureNd(n.kids[0]) {
						def[l.obj] = &nd{k: "idx", kids: []*nd{n.kids[0], n.kids[1]}}
					}
				}
			}
		case "&":
			if n.kids[0].k == "var" {
				cnt[n.kids[0].obj] += 2
			}
		}
		for _, k := range n.kids {
			walk(k)
		}
	}
	walk(n)
	for o := range def {
		if cnt[o] != 1 {
			delete(def, o)
		}
	}
	return def
}

func pureNd(n *nd) bool {
	switch n.k {
	case "call":
		if n.s != "len" && n.s != "cap" {
			return false
		}
	case "func", "lit", "assert":
		return false
	}
	for _, k := range n.kids {
		if !pureNd(k) {
			return false
		}
	}
	return true
}

// pointEdit aligns fn with its reference and judges a single difference.
func (r *Repo) pointEdit(key string, cur, ref *ssa.Function) (found bool, why string, pos token.Pos, edits []edit) {
	u := r.unitOf[cur.Pkg]
	cd, ok1 := cur.Syntax().(*ast.FuncDecl)
	rd, ok2 := ref.Syntax().(*ast.FuncDecl)
	if u == nil || !ok1 || !ok2 || cd.Body == nil || rd.Body == nil {
		return
	}
	z := &normer{info: u.P.TypesInfo, pkg: u.P.Types, fold: map[types.Object]*ai.Term{}}
	for g, t := range r.Consts() {
		z.fold[g.Object()] = t
	}
	a := &aligner{r: r, prefix: u.Prefix, cr: map[types.Object]types.Object{}, rc: map[types.Object]types.Object{}}
	cp, rp := paramsOf(cur), paramsOf(ref)
	if len(cp) != len(rp) {
		return
	}
	for i := range cp {
		if cp[i] != nil && rp[i] != nil && !a.bind(cp[i], rp[i]) {
			return
		}
	}
	cr, rr := cur.Signature.Results(), ref.Signature.Results()
	for i := 0; i < cr.Len() && i < rr.Len(); i++ {
		if cr.At(i).Name() != "" && rr.At(i).Name() != "" {
			a.bind(cr.At(i), rr.At(i))
		}
	}
	c, f := z.list(cd.Body.List), z.list(rd.Body.List)
	a.defC, a.defR = singleDefs(c), singleDefs(f)
	a.diff(c, f)
	edits = a.edits
	if a.over || len(edits) != 1 {
		return
	}
	ok, w := a.judge(edits[0])
	if !ok {
		return
	}
	p := cd.Pos()
	if edits[0].c != nil && edits[0].c.pos.IsValid() {
		p = edits[0].c.pos
	}
	return true, w, p, edits
}

func paramsOf(fn *ssa.Function) []types.Object {
	var out []types.Object
	for _, p := range fn.Params {
		out = append(out, p.Object())
	}
	return out
}
