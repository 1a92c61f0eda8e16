package ai

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ModSet is a field-based summary of what a function may write, transitively.
type ModSet struct {
	Fields map[string]bool // "type.field"
	Maps   map[string]bool // map type
	Any    bool            // calls something unresolved
}

var modCache = map[*ssa.Function]*ModSet{}

// Mods computes the transitive field-based write summary of fn.
func Mods(fn *ssa.Function) *ModSet {
	if m, ok := modCache[fn]; ok {
		return m
	}
	m := &ModSet{Fields: map[string]bool{}, Maps: map[string]bool{}}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && !freshAddr(fa) {
						pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
						st := pt.Underlying().(*types.Struct)
						m.Fields[typeKey(pt)+"."+st.Field(fa.Field).Name()] = true
					}
				case *ssa.MapUpdate:
					m.Maps[typeKey(x.Map.Type())] = true
				case *ssa.MakeClosure:
					walk(x.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					c := x.Common()
					if c.IsInvoke() {
						continue
					}
					if sc := c.StaticCallee(); sc != nil {
						if sc.Pkg != nil && f.Pkg != nil && sc.Pkg == f.Pkg || sc.Parent() != nil {
							walk(sc)
						}
					}
					if bi, ok := c.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						m.Maps[typeKey(c.Args[0].Type())] = true
					}
				}
			}
		}
	}
	walk(fn)
	modCache[fn] = m
	return m
}

// freshAddr: the address lies in an object the function has just allocated.
func freshAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		default:
			return false
		}
	}
}

var touchCache = map[*ssa.Function]*ModSet{}

// Touch computes the transitive field-based summary of what fn may read or
// write.
func Touch(fn *ssa.Function) *ModSet {
	if m, ok := touchCache[fn]; ok {
		return m
	}
	m := &ModSet{Fields: map[string]bool{}, Maps: map[string]bool{}}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					pt := x.X.Type().Underlying().(*types.Pointer).Elem()
					st := pt.Underlying().(*types.Struct)
					m.Fields[typeKey(pt)+"."+st.Field(x.Field).Name()] = true
				case *ssa.UnOp:
					// a whole struct is read
					if st, ok := x.Type().Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							m.Fields[typeKey(x.Type())+"."+st.Field(i).Name()] = true
						}
					}
				case *ssa.MapUpdate:
					m.Maps[typeKey(x.Map.Type())] = true
				case *ssa.Lookup:
					m.Maps[typeKey(x.X.Type())] = true
				case *ssa.Range:
					m.Maps[typeKey(x.X.Type())] = true
				case *ssa.MakeClosure:
					walk(x.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					c := x.Common()
					for _, a := range c.Args {
						if isMap(a.Type()) {
							m.Maps[typeKey(a.Type())] = true
						}
					}
					if c.IsInvoke() {
						continue
					}
					if sc := c.StaticCallee(); sc != nil {
						if sc.Pkg != nil && f.Pkg != nil && sc.Pkg == f.Pkg || sc.Parent() != nil {
							walk(sc)
						}
					}
				}
			}
		}
	}
	walk(fn)
	touchCache[fn] = m
	return m
}

// snapKey identifies a memory cell of a pre-existing object.
func snapKey(root *Term, field int) *Term {
	return mk(Term{Op: "snapk", Args: []*Term{root}, K: int64(field)})
}

// snapInit is the content a cell has when nothing was written to it.
func (s *State) snapInit(k *Term, t types.Type) *Term {
	root := k.Args[0]
	if k.K < 0 {
		return mk(Term{Op: "m0", Args: []*Term{root}, T: root.T})
	}
	return Field(mk(Term{Op: "deref", Args: []*Term{root}, T: t}), int(k.K), nil)
}

// snapshot lists the cells written so far that a callee may look at.
func (s *State) snapshot(touch *ModSet) map[*Term]*Term {
	var out map[*Term]*Term
	put := func(k, v *Term) {
		if out == nil {
			out = map[*Term]*Term{}
		}
		out[k] = v
	}
	for r, v := range s.roots() {
		if isMap(r.T) {
			if touch.Maps[typeKey(r.T)] {
				put(snapKey(r, -1), s.Deep(v))
			}
			continue
		}
		t := s.types[r]
		st := StructType(t)
		if st == nil {
			continue
		}
		d := mk(Term{Op: "deref", Args: []*Term{r}, T: t})
		for i := 0; i < st.NumFields(); i++ {
			if !touch.Fields[typeKey(t)+"."+st.Field(i).Name()] {
				continue
			}
			fv := Field(v, i, nil)
			if fv != Field(d, i, nil) {
				put(snapKey(r, i), s.Deep(fv))
			}
		}
	}
	return out
}

func (m *ModSet) add(o *ModSet) bool {
	grew := false
	for f := range o.Fields {
		if !m.Fields[f] {
			m.Fields[f] = true
			grew = true
		}
	}
	for f := range o.Maps {
		if !m.Maps[f] {
			m.Maps[f] = true
			grew = true
		}
	}
	return grew
}

func (m *ModSet) clone() *ModSet {
	n := &ModSet{Fields: map[string]bool{}, Maps: map[string]bool{}}
	n.add(m)
	return n
}
