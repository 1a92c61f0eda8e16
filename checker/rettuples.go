package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// Result sets: what the returns of a function (with reference semantics) can
// yield together, as constants and nil-ness. A path that assumes results no
// return yields is not real.

// retTuples computes the result sets of the function with a given key.
func (r *Repo) retTuples(name string) [][]ai.RetVal {
	if r.rets == nil {
		r.rets = map[string][][]ai.RetVal{}
	}
	if v, ok := r.rets[name]; ok {
		return v
	}
	r.rets[name] = nil
	fn := r.refFn[name]
	if fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	var out [][]ai.RetVal
	useful := false
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		tup := make([]ai.RetVal, len(ret.Results))
		for i, v := range ret.Results {
			tup[i] = retVal(v, b, map[ssa.Value]bool{})
			if len(tup[i].Consts) > 0 || tup[i].Nil != 0 {
				useful = true
			}
		}
		out = append(out, tup)
	}
	if !useful {
		return nil
	}
	r.rets[name] = out
	return out
}

func retVal(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) ai.RetVal {
	if seen[v] {
		return ai.RetVal{}
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if x.IsNil() {
				return ai.RetVal{Nil: 1}
			}
			return ai.RetVal{}
		}
		return ai.RetVal{Consts: []*ai.Term{ai.ConstTerm(x)}}
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeClosure:
		return ai.RetVal{Nil: -1}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && setOnce(g) {
			return ai.RetVal{Nil: -1}
		}
	case *ssa.Phi:
		var out ai.RetVal
		for i, e := range x.Edges {
			y := retVal(e, x.Block().Preds[i], seen)
			if len(y.Consts) == 0 && y.Nil == 0 {
				return ai.RetVal{}
			}
			if i == 0 {
				out = y
				continue
			}
			if out.Nil != y.Nil || (len(out.Consts) == 0) != (len(y.Consts) == 0) {
				return ai.RetVal{}
			}
			out.Consts = append(out.Consts, y.Consts...)
		}
		return out
	}
	// a test that dominates the return
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		c, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		t, ok := c.Cond.(*ssa.BinOp)
		if !ok || t.Op != token.EQL && t.Op != token.NEQ {
			continue
		}
		k, ok := t.Y.(*ssa.Const)
		if !ok || !k.IsNil() || t.X != v {
			continue
		}
		if (t.Op == token.EQL) == (p.Succs[0] == d) {
			return ai.RetVal{Nil: 1}
		}
		return ai.RetVal{Nil: -1}
	}
	return ai.RetVal{}
}

// setOnce reports whether a package variable is set to a non-nil value at
// initialisation and never again.
func setOnce(g *ssa.Global) bool {
	if g.Pkg == nil {
		return false
	}
	n := 0
	for _, m := range g.Pkg.Members {
		fn, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != g {
					continue
				}
				if fn.Name() != "init" {
					return false
				}
				switch v := st.Val.(type) {
				case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap:
					n++
				case *ssa.Call:
					if c := v.Call.StaticCallee(); c == nil || c.String() != "errors.New" && c.String() != "fmt.Errorf" {
						return false
					}
					n++
				default:
					return false
				}
			}
		}
	}
	return n == 1
}
