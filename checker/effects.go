package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// Ownership of memory. Every reference-like value is given the set of places
// its memory may come from: allocated by the function itself ("fresh"),
// reached from what the function was given or from a package variable
// ("shared"), or unknown. Writes through shared memory, and shared memory
// handed out or kept where the reference semantics hands out or keeps memory
// of its own, are the effects compared.

type origin uint8

const (
	oFresh origin = 1 << iota
	oParam
	oGlobal
	oUnknown
)

// region is a function together with the helpers that belong to it alone:
// on the current side functions without a reference, on the reference side
// references of functions that no longer exist.
func (r *Repo) region(fn *ssa.Function, ref bool) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if o := f.Origin(); o != nil {
			f = o
		}
		if seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok || !r.Local(g) {
						continue
					}
					if g.Parent() != nil {
						walk(g)
						continue
					}
					k, table := r.tableKey(g)
					switch {
					case !table && !isRef(g):
						walk(g)
					case ref && table && r.Func(k) == nil:
						walk(r.refFn[k])
					}
				}
			}
		}
	}
	walk(fn)
	return out
}

// effect is one ownership fact of a region.
type effect struct {
	kind string // write, return, keep
	what string
	pos  token.Pos
}

type owner struct {
	r    *Repo
	set  map[*ssa.Function]bool
	top  *ssa.Function
	memo map[ssa.Value]origin
	on   map[ssa.Value]bool
	// call sites within the region
	sites map[*ssa.Function][]ssa.CallInstruction
	freeB map[*ssa.FreeVar]ssa.Value
}

func (r *Repo) newOwner(top *ssa.Function, fns []*ssa.Function) *owner {
	o := &owner{r: r, set: map[*ssa.Function]bool{}, top: top, memo: map[ssa.Value]origin{}, on: map[ssa.Value]bool{}, sites: map[*ssa.Function][]ssa.CallInstruction{}, freeB: map[*ssa.FreeVar]ssa.Value{}}
	for _, f := range fns {
		o.set[f] = true
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						if og := g.Origin(); og != nil {
							g = og
						}
						o.sites[g] = append(o.sites[g], c)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					for i, fv := range g.FreeVars {
						o.freeB[fv] = mc.Bindings[i]
					}
				}
			}
		}
	}
	return o
}

func refLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Tuple:
		return true
	}
	return false
}

var freshCalls = map[string]bool{
	"slices.Clone": true, "bytes.Clone": true, "maps.Clone": true, "slices.Collect": true, "slices.Sorted": true, "slices.Concat": true, "slices.Repeat": true,
	"bytes.ToLower": true, "bytes.ToUpper": true, "bytes.Repeat": true, "bytes.Join": true, "strings.Split": true, "strings.Fields": true, "strings.Repeat": true,
	"errors.New": true, "fmt.Errorf": true, "strconv.AppendInt": false,
}

// of gives the origins of the memory a value refers to.
func (o *owner) of(v ssa.Value) origin {
	if x, ok := o.memo[v]; ok {
		return x
	}
	if o.on[v] {
		return 0
	}
	o.on[v] = true
	x := o.of0(v)
	delete(o.on, v)
	if len(o.on) == 0 {
		o.memo[v] = x
	}
	return x
}

func (o *owner) of0(v ssa.Value) origin {
	switch x := v.(type) {
	case *ssa.Const, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.Function, *ssa.Builtin:
		return oFresh
	case *ssa.Alloc:
		return oFresh
	case *ssa.MakeClosure:
		return oFresh
	case *ssa.Global:
		return oGlobal
	case *ssa.Parameter:
		f := x.Parent()
		if f == o.top {
			return oParam
		}
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		if !o.set[f] || idx < 0 || len(o.sites[f]) == 0 {
			return oUnknown
		}
		var r origin
		for _, c := range o.sites[f] {
			if as := c.Common().Args; idx < len(as) {
				r |= o.of(as[idx])
			}
		}
		return r
	case *ssa.FreeVar:
		if b, ok := o.freeB[x]; ok {
			return o.of(b)
		}
		return oUnknown
	case *ssa.FieldAddr:
		return o.of(x.X)
	case *ssa.IndexAddr:
		return o.of(x.X)
	case *ssa.Field:
		return o.of(x.X)
	case *ssa.Index:
		return o.of(x.X)
	case *ssa.Slice:
		if c, ok := x.Max.(*ssa.Const); ok && c.Int64() == 0 {
			return oFresh
		}
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return oFresh
		}
		return o.of(x.X)
	case *ssa.ChangeType:
		return o.of(x.X)
	case *ssa.ChangeInterface:
		return o.of(x.X)
	case *ssa.MakeInterface:
		return o.of(x.X)
	case *ssa.SliceToArrayPointer:
		return o.of(x.X)
	case *ssa.Convert:
		return oFresh // []byte(string) and the like copy
	case *ssa.TypeAssert:
		return o.of(x.X)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return o.call(c, x.Index)
		}
		return o.of(x.Tuple)
	case *ssa.Lookup:
		return o.load(x.X, x.Type())
	case *ssa.Next:
		if rg, ok := x.Iter.(*ssa.Range); ok {
			return o.load(rg.X, x.Type())
		}
		return oUnknown
	case *ssa.Phi:
		var r origin
		for _, e := range x.Edges {
			r |= o.of(e)
		}
		return r
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if !refLike(x.Type()) {
				return oFresh
			}
			return o.loadAddr(x.X)
		}
		return oFresh
	case *ssa.Call:
		return o.call(x, 0)
	case *ssa.BinOp:
		return oFresh
	}
	return oUnknown
}

// loadAddr: what a reference stored at an address points into.
func (o *owner) loadAddr(addr ssa.Value) origin {
	base := o.of(addr)
	if base&^oFresh == 0 {
		// own memory: what was stored there
		return o.stored(addr)
	}
	r := base &^ oFresh
	if base&oFresh != 0 {
		r |= o.stored(addr)
	}
	return r
}

func (o *owner) load(container ssa.Value, t types.Type) origin {
	base := o.of(container)
	if base&^oFresh != 0 {
		return base &^ oFresh
	}
	return oUnknown
}

// stored collects the values the region stores at an address (or, for a
// field, into that field of an object of the same allocation).
func (o *owner) stored(addr ssa.Value) origin {
	switch a := addr.(type) {
	case *ssa.Alloc:
		return o.storesTo(a)
	case *ssa.FreeVar:
		if b, ok := o.freeB[a]; ok {
			return o.stored(b)
		}
	case *ssa.Phi:
	case *ssa.FieldAddr:
		if al, ok := a.X.(*ssa.Alloc); ok {
			return o.fieldStores(al, a.Field)
		}
		if in, ok := a.X.(*ssa.FieldAddr); ok {
			return o.stored(in)
		}
	}
	return oUnknown
}

func (o *owner) storesTo(a *ssa.Alloc) origin {
	var r origin
	var uses func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	uses = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr == v {
					r |= o.of(x.Val)
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						uses(x.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	uses(a)
	if r == 0 {
		return oFresh
	}
	return r
}

func (o *owner) fieldStores(al *ssa.Alloc, field int) origin {
	var r origin
	n := 0
	for _, in := range *al.Referrers() {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			if x.Field != field {
				continue
			}
			for _, u := range *x.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
					r |= o.of(s.Val)
					n++
				}
			}
		case *ssa.Store:
			if x.Addr == ssa.Value(al) {
				if x := o.of(x.Val); x != oFresh { // a fresh struct may still hold shared parts
					r |= x
				} else {
					r |= oUnknown
				}
				n++
			}
		}
	}
	if n == 0 {
		return oUnknown
	}
	return r
}

func (o *owner) call(c *ssa.Call, idx int) origin {
	com := c.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			x := o.of(com.Args[0])
			if x == oFresh || isNilConst(com.Args[0]) {
				return oFresh
			}
			return x
		case "min", "max":
			return oFresh
		}
		return oFresh
	}
	g := com.StaticCallee()
	if g == nil {
		return oUnknown
	}
	if og := g.Origin(); og != nil {
		g = og
	}
	if k, ok := r_tableKey(o.r, g); ok {
		return o.summary(k, idx, com.Args)
	}
	if o.set[g] {
		var r origin
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
				r |= o.of(ret.Results[idx])
			}
		}
		return r
	}
	name := ai.ExtKey(g)
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	if freshCalls[name] {
		return oFresh
	}
	return oUnknown
}

func r_tableKey(r *Repo, g *ssa.Function) (string, bool) { return r.tableKey(g) }

// summary: a function of the table returns memory of its own, or memory
// reached from its arguments, as its reference does.
func (o *owner) summary(k string, idx int, args []ssa.Value) origin {
	s := o.r.retOrigins(k)
	if idx >= len(s) {
		return oUnknown
	}
	x := s[idx]
	out := x &^ oParam
	if x&oParam != 0 {
		for _, a := range args {
			if refLike(a.Type()) {
				out |= o.of(a) &^ oFresh
			}
		}
		if out == 0 {
			out = oUnknown
		}
	}
	return out
}

// retOrigins of the reference of a function.
func (r *Repo) retOrigins(k string) []origin {
	if r.retOrig == nil {
		r.retOrig = map[string][]origin{}
	}
	if s, ok := r.retOrig[k]; ok {
		return s
	}
	r.retOrig[k] = nil
	ref := r.refFn[k]
	if ref == nil {
		return nil
	}
	o := r.newOwner(ref, r.region(ref, true))
	n := ref.Signature.Results().Len()
	s := make([]origin, n)
	for _, b := range ref.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for i := range ret.Results {
				if i < n {
					s[i] |= o.of(ret.Results[i])
				}
			}
		}
	}
	r.retOrig[k] = s
	return s
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// astType names a grammar type that memory of type t belongs to, or "".
func astName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	switch n.Obj().Name() {
	case "Grammar", "Rule", "Alternation", "Concatenation", "Repetition", "ElemRulename", "ElemGroup", "ElemOption", "ElemCharVal", "ElemNumVal", "ElemProseVal", "ElemItf":
		return n.Obj().Name()
	}
	return ""
}

// watched: element types of slices and maps that make up grammars, inputs
// and results.
func watchedElem(t types.Type) string {
	if a := astName(t); a != "" {
		return a
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Byte, types.Rune, types.String, types.Int:
			return b.Name()
		}
	}
	return ""
}

// target describes what an address designates when it is watched memory.
func target(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		if n := astName(a.X.Type()); n != "" {
			st := a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return n + "." + st.Field(a.Field).Name()
		}
		// a field of a struct held in an element or field of a grammar
		return target(a.X)
	case *ssa.IndexAddr:
		t := a.X.Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if s, ok := t.(*types.Slice); ok {
			if e := watchedElem(s.Elem()); e != "" {
				return "[]" + e
			}
		}
		return ""
	case *ssa.Global:
		return "package variable " + a.Name()
	}
	if p, ok := addr.Type().Underlying().(*types.Pointer); ok {
		if n := astName(p.Elem()); n != "" {
			return n
		}
	}
	return ""
}

var inPlace = map[string]bool{
	"sort.Slice": true, "sort.SliceStable": true, "sort.Strings": true, "sort.Ints": true, "sort.Sort": true, "sort.Stable": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true, "slices.Delete": true, "slices.Insert": true, "slices.Compact": true, "slices.DeleteFunc": true, "maps.DeleteFunc": true, "maps.Copy": true,
	"strings.Builder": false,
}

// effects of a region.
func (r *Repo) effects(top *ssa.Function, ref bool) []effect {
	fns := r.region(top, ref)
	o := r.newOwner(top, fns)
	var out []effect
	add := func(kind, what string, pos token.Pos) { out = append(out, effect{kind, what, pos}) }
	shared := func(x origin) string {
		switch {
		case x&oGlobal != 0:
			return "package state"
		case x&oParam != 0:
			return "memory of its caller"
		}
		return ""
	}
	contT := func(t types.Type) string {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if e := watchedElem(u.Elem()); e != "" {
				return "[]" + e
			}
		case *types.Map:
			if e := watchedElem(u.Elem()); e != "" {
				return "map of " + e
			}
		}
		return ""
	}
	for _, f := range fns {
		if f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if t := target(x.Addr); t != "" {
						if s := shared(o.of(x.Addr)); s != "" {
							add("write", t+" in "+s, x.Pos())
						}
					}
					if keepable(x.Val.Type()) {
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
							if s := shared(o.of(x.Val)); s != "" {
								st := fa.X.Type().Underlying().(*types.Pointer).Elem()
								add("keep", fmt.Sprintf("%s of field %s of %s", s, st.Underlying().(*types.Struct).Field(fa.Field).Name(), typeName(st)), x.Pos())
							}
						}
					}
				case *ssa.MapUpdate:
					if t := contT(x.Map.Type()); t != "" {
						if s := shared(o.of(x.Map)); s != "" {
							add("write", t+" in "+s, x.Pos())
						}
					}
					if keepable(x.Value.Type()) {
						if s := shared(o.of(x.Value)); s != "" {
							add("keep", s+" in a map of "+x.Value.Type().String(), x.Pos())
						}
					}
				case *ssa.Return:
					if f == top {
						for i, v := range x.Results {
							if fl := r.recycled(v); fl != "" && token.IsExported(f.Name()) {
								add("return", fmt.Sprintf("the buffer %s, which is used again, as result %d", fl, i), x.Pos())
							}
							if keepable(v.Type()) {
								if s := shared(o.of(v)); s != "" {
									add("return", fmt.Sprintf("%s as result %d", s, i), x.Pos())
								}
							}
						}
					}
				case ssa.CallInstruction:
					com := x.Common()
					if bi, ok := com.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "delete", "clear":
							if t := contT(com.Args[0].Type()); t != "" {
								if s := shared(o.of(com.Args[0])); s != "" {
									add("write", t+" in "+s, x.Pos())
								}
							}
						}
						continue
					}
					if g := com.StaticCallee(); g != nil && len(com.Args) > 0 {
						n := ai.ExtKey(g)
						if i := strings.IndexByte(n, '['); i >= 0 {
							n = n[:i]
						}
						if inPlace[n] {
							a := com.Args[0]
							if mi, ok := a.(*ssa.MakeInterface); ok {
								a = mi.X
							}
							if s := shared(o.of(a)); s != "" {
								add("write", a.Type().String()+" in "+s, x.Pos())
							}
						}
					}
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].kind+out[i].what < out[j].kind+out[j].what })
	return out
}

// fieldLoaded names the struct field a slice value is the content of.
func fieldLoaded(v ssa.Value, seen map[ssa.Value]bool) map[string]bool {
	out := map[string]bool{}
	if seen[v] {
		return out
	}
	seen[v] = true
	sub := func(w ssa.Value) {
		for k := range fieldLoaded(w, seen) {
			out[k] = true
		}
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			st := fa.X.Type().Underlying().(*types.Pointer).Elem()
			out[typeName(st)+"."+st.Underlying().(*types.Struct).Field(fa.Field).Name()] = true
		}
	case *ssa.Slice:
		sub(x.X)
	case *ssa.ChangeType:
		sub(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			sub(e)
		}
	}
	return out
}

// recycled names the field a slice comes from when some function truncates
// that field in order to fill the same memory again.
func (r *Repo) recycled(v ssa.Value) string {
	if _, ok := v.Type().Underlying().(*types.Slice); !ok {
		return ""
	}
	if r.reused == nil {
		r.reused = map[string]bool{}
		for _, f := range r.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					sl, ok := st.Val.(*ssa.Slice)
					if !ok || sl.High == nil || sl.Max != nil {
						continue
					}
					t := fa.X.Type().Underlying().(*types.Pointer).Elem()
					name := typeName(t) + "." + t.Underlying().(*types.Struct).Field(fa.Field).Name()
					if fieldLoaded(sl.X, map[ssa.Value]bool{})[name] {
						r.reused[name] = true
					}
				}
			}
		}
	}
	for k := range fieldLoaded(v, map[ssa.Value]bool{}) {
		if r.reused[k] {
			return k
		}
	}
	return ""
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// keepable: containers whose sharing lets one side see the other's changes.
func keepable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

const ownRule = "no write through, and no sharing of, memory the reference semantics leaves alone"

// runC02 compares the ownership effects of every function with those of its
// reference.
func runC02(c *Ctx) {
	var keys []string
	for k := range c.refFn {
		if c.refFn[k].Parent() == nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	sites := 0
	for _, k := range keys {
		cur, ref := c.Func(k), c.refFn[k]
		if cur == nil {
			continue
		}
		c.Analysed(cur)
		es := c.effects(cur, false)
		sites += len(es)
		if len(es) == 0 {
			c.Held(ownRule, k, c.Pos(cur.Pos()))
			continue
		}
		have := map[string]bool{}
		for _, e := range c.effects(ref, true) {
			have[e.kind+" "+e.what] = true
		}
		bad := false
		for _, e := range es {
			if !have[e.kind+" "+e.what] {
				bad = true
				c.Violate(ownRule, k, c.Pos(e.pos), "%s of %s, which the reference semantics of %s does not do", e.kind, e.what, k)
			}
		}
		if !bad {
			c.Held(ownRule, k, c.Pos(cur.Pos()))
		}
	}
	c.Extra["ownership_effect_sites"] = sites
}
