package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// FuncKey names a function: "Recv.Name" or "Name"; external functions get
// their package path.
func FuncKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	name := fn.Name()
	if strings.HasPrefix(name, "vr_") && fn.Parent() == nil {
		return strings.TrimPrefix(strings.Replace(name[3:], "_", ".", 1), ".")
	}
	if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + name
		}
	}
	if fn.Parent() != nil {
		if i := strings.LastIndex(name, "$"); i >= 0 {
			name = name[i+1:]
		}
		return FuncKey(fn.Parent()) + "$" + name
	}
	return name
}

// ExtKey names a function with its package path.
func ExtKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		n := fn.Object().Pkg().Path() + "." + FuncKey(fn)
		if a, ok := sameAs[n]; ok {
			return a
		}
		return n
	}
	return FuncKey(fn)
}

// sameAs lists library functions that do the same on the types they share.
var sameAs = map[string]string{"sort.Strings": "slices.Sort", "sort.Ints": "slices.Sort"}

type callK func(st *State, res *Term, forked bool)

func resTerm(name string, sig *types.Signature, args []*Term) *Term {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return Tuple()
	case 1:
		return App(name, r.At(0).Type(), args...)
	}
	ts := make([]*Term, r.Len())
	for i := range ts {
		ts[i] = App(fmt.Sprintf("%s.%d", name, i), r.At(i).Type(), args...)
	}
	return Tuple(ts...)
}

func packRet(ret []*Term) *Term {
	if len(ret) == 1 {
		return ret[0]
	}
	return Tuple(ret...)
}

func (in *Interp) callInstr(fr *frame, x *ssa.Call, st *State, k callK) {
	c := x.Common()
	args := make([]*Term, len(c.Args))
	for i, a := range c.Args {
		args[i] = in.val(fr, a)
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		in.builtin(fr, x, bi, args, st, k)
		return
	}
	var v *Term
	if _, ok := c.Value.(*ssa.Function); !ok {
		v = in.val(fr, c.Value)
	}
	in.dispatch(fr, c, v, args, x.Pos(), st, k)
}

// dispatch performs a call whose function value and arguments are known.
func (in *Interp) dispatch(fr *frame, c *ssa.CallCommon, f *Term, args []*Term, pos token.Pos, st *State, k callK) {
	if c.IsInvoke() {
		recv := st.F.Resolve(f)
		if dt := st.F.DynType(recv); dt != nil {
			if m := in.Prog.LookupMethod(dt, c.Method.Pkg(), c.Method.Name()); m != nil {
				var v *Term
				if recv.Op == "iface" {
					v = recv.Args[0]
				} else {
					v = mk(Term{Op: "as", Args: []*Term{recv}, T: dt})
				}
				in.callFn(fr, m, append([]*Term{v}, args...), nil, pos, st, k)
				return
			}
		}
		name := "invoke:" + c.Method.Name()
		if in.OnCall != nil {
			in.OnCall(st, fr.fn, pos, nil, name, append([]*Term{recv}, args...))
		}
		all := []*Term{st.Deep(recv)}
		if name == "invoke:String" && len(args) == 0 {
			k(st, App("String", tString, all[0]), false)
			return
		}
		for _, a := range args {
			all = append(all, st.Deep(a))
		}
		res := resTerm(name, c.Signature(), all)
		if c.Signature().Results().Len() == 0 || in.impure(name) {
			st.event(Event{Kind: "call", Name: name, Args: all, Res: res, Pos: pos})
		}
		in.clobber(st, name, recv, args, all)
		k(st, res, false)
		return
	}
	if fn, ok := c.Value.(*ssa.Function); ok {
		in.callFn(fr, fn, args, nil, pos, st, k)
		return
	}
	f = st.F.Resolve(f)
	switch f.Op {
	case "func":
		in.callFn(fr, f.Fn, args, nil, pos, st, k)
		return
	case "closure":
		in.callFn(fr, f.Fn, args, f.Args, pos, st, k)
		return
	}
	// unknown function value
	res := resTerm("dyncall", c.Signature(), append([]*Term{f}, args...))
	all := []*Term{f}
	for _, a := range args {
		all = append(all, st.Deep(a))
	}
	st.event(Event{Kind: "call", Name: "dyncall", Args: all, Res: res, Pos: pos})
	in.clobber(st, "dyncall", f, args, all)
	k(st, res, false)
}

// WrittenField reports whether some function of the repository writes the
// field ("type.field") of an object it has not itself just made.
var WrittenField func(string) bool

// FieldWrites lists the fields a function writes in objects it is given.
func FieldWrites(f *ssa.Function, out map[string]bool) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if freshAddr(x) {
					continue
				}
				for _, r := range *x.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					pt := x.X.Type().Underlying().(*types.Pointer).Elem()
					out[typeKey(pt)+"."+pt.Underlying().(*types.Struct).Field(x.Field).Name()] = true
				}
			case *ssa.Store:
				if stt := StructType(x.Val.Type()); stt != nil {
					for i := 0; i < stt.NumFields(); i++ {
						out[typeKey(x.Val.Type())+"."+stt.Field(i).Name()] = true
					}
				}
			}
		}
	}
}

// clobber makes what an unresolved callee may write through its arguments a
// function of the callee and of what was there.
func (in *Interp) clobber(st *State, name string, f *Term, args, all []*Term) {
	for _, r := range args {
		if r.Op == "ref" || r.Op == "faddr" {
			t := r.elem()
			as := append([]*Term{st.Deep(st.Load(r, t))}, f)
			for _, a := range all {
				if a.Op != "ref" && a.Op != "ptrto" && a != f {
					as = append(as, a)
				}
			}
			v := App("by:"+name, t, as...)
			if stt := StructType(t); stt != nil && WrittenField != nil {
				old := st.Load(r, t)
				fs := make([]*Term, stt.NumFields())
				for i := range fs {
					f := stt.Field(i)
					if !f.Exported() && !WrittenField(typeKey(t)+"."+f.Name()) {
						fs[i] = Field(old, i, nil)
					} else {
						fs[i] = Field(v, i, f.Type())
					}
				}
				v = Struct(t, fs)
			}
			st.Store(r, v, t)
		}
	}
}

func (in *Interp) impure(name string) bool { return false }

func (in *Interp) callFn(fr *frame, fn *ssa.Function, args, free []*Term, pos token.Pos, st *State, k callK) {
	key := FuncKey(fn)
	if n := len(args); fn.Signature.Variadic() && n > 0 && emptySeq(st.Deep(args[n-1])) {
		// no arguments, written as an empty list
		args = append(append([]*Term(nil), args[:n-1]...), Nil())
	}
	if in.OnCall != nil {
		in.OnCall(st, fr.fn, pos, fn, key, args)
	}
	local := in.Local != nil && in.Local(fn)
	if !local {
		if fn.Synthetic != "" && len(fn.Blocks) > 0 && in.isWrapperOfLocal(fn) {
			in.inline(fr, fn, args, free, st, k)
			return
		}
		if in.model(fr, fn, args, pos, st, k) {
			return
		}
		all := make([]*Term, len(args))
		ptr := false
		for i, a := range args {
			all[i] = st.Deep(a)
			if i < len(fn.Params) || true {
				if a.Op == "ref" || a.Op == "faddr" || a.Op == "mapref" {
					ptr = true
				}
			}
		}
		ek := ExtKey(fn)
		res := resTerm(ek, fn.Signature, all)
		if ptr || fn.Signature.Results().Len() == 0 || effectfulExt(ek) {
			st.event(Event{Kind: "call", Name: ek, Fn: fn, Args: all, Res: res, Pos: pos})
			for _, a := range args {
				r := a
				if r.Op == "ref" || r.Op == "faddr" {
					ep := st.tick()
					t := r.elem()
					st.Store(r, App(fmt.Sprintf("ext%d", ep), t, r), t)
				}
			}
		}
		k(st, res, false)
		return
	}
	mode := Inline
	if in.Policy != nil {
		mode = in.Policy(fn)
	}
	rec := false
	for _, f := range fr.stack {
		if f == fn {
			rec = true
		}
	}
	if mode == Inline && (rec || len(fr.stack) > in.MaxDepth || len(fn.Blocks) == 0) {
		mode = Effect
		if rec && fn.Parent() != nil {
			in.RecClosures[key] = fn
		}
	}
	switch mode {
	case Inline:
		in.inline(fr, fn, args, free, st, k)
	case Pure:
		if isStringer(fn) {
			k(st, in.stringOf(st, fn, args[0]), false)
			return
		}
		all := make([]*Term, len(args))
		for i, a := range args {
			all[i] = st.Deep(a)
		}
		if sn := st.snapshot(in.touch(fn)); len(sn) > 0 {
			var ks []*Term
			for k := range sn {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
			for _, k := range ks {
				all = append(all, mk(Term{Op: "with", Args: []*Term{k, sn[k]}}))
			}
		}
		k(st, resTerm(key, fn.Signature, all), false)
	default:
		all := make([]*Term, len(args))
		for i, a := range args {
			all[i] = st.Deep(a)
		}
		for _, f := range free {
			_ = f
		}
		res := resTerm(key, fn.Signature, all)
		st.event(Event{Kind: "call", Name: key, Fn: fn, Args: all, Res: res, Pos: pos, Snap: st.snapshot(in.touch(fn))})
		if in.Summary != nil {
			in.applyMods(st, in.Summary(fn))
		} else {
			in.applyMods(st, Mods(fn))
		}
		// what it appends through the output it is given
		for i, p := range args {
			if i >= len(fn.Params) || !isOutput(fn.Params[i].Type()) || !writesParam(fn, i, map[*ssa.Function]bool{}) {
				continue
			}
			in.output(st, p, fn.Params[i].Type(), "out:"+key, all)
		}
		// captured variables a recursive closure may write
		for i, f := range free {
			if i < len(fn.FreeVars) && writesFree(fn, fn.FreeVars[i]) && f.Op == "ref" {
				ep := st.tick()
				t := f.elem()
				st.Store(f, App(fmt.Sprintf("cap%d", ep), t, f), t)
			}
		}
		k(st, res, false)
	}
}

// isStringer reports a method func() string named String.
func isStringer(fn *ssa.Function) bool {
	sig := fn.Signature
	return strings.HasSuffix(FuncKey(fn), ".String") && len(fn.Params) == 1 && sig.Results().Len() == 1 && isStringType(sig.Results().At(0).Type())
}

// stringOf is the text a value's String method gives, the same term for a
// direct call, a call through an interface and a verb of package fmt.
func (in *Interp) stringOf(st *State, fn *ssa.Function, v *Term) *Term {
	all := []*Term{st.Deep(v)}
	if sn := st.snapshot(in.touch(fn)); len(sn) > 0 {
		var ks []*Term
		for k := range sn {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, k := range ks {
			all = append(all, mk(Term{Op: "with", Args: []*Term{k, sn[k]}}))
		}
	}
	return App("String", tString, all...)
}

func (in *Interp) touch(fn *ssa.Function) *ModSet {
	if in.TouchOf != nil {
		return in.TouchOf(fn)
	}
	return Touch(fn)
}

// effectfulExt lists library calls whose effect is observable outside.
func effectfulExt(name string) bool {
	switch name {
	case "os.WriteFile", "os.Exit", "os.File.Write", "os.File.WriteString", "os.ReadFile", "io.ReadAll", "crypto/rand.Read":
		return true
	}
	return strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "fmt.Fprint") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "flag.")
}

func writesFree(fn *ssa.Function, fv *ssa.FreeVar) bool {
	for _, r := range *fv.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == fv {
			return true
		}
		if mc, ok := r.(*ssa.MakeClosure); ok {
			for i, b := range mc.Bindings {
				if b == fv && writesFree(mc.Fn.(*ssa.Function), mc.Fn.(*ssa.Function).FreeVars[i]) {
					return true
				}
			}
		}
	}
	return false
}

func (in *Interp) isWrapperOfLocal(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if sc := c.Call.StaticCallee(); sc != nil && in.Local(sc) {
					return true
				}
			}
		}
	}
	return false
}

func (in *Interp) inline(fr *frame, fn *ssa.Function, args, free []*Term, st *State, k callK) {
	n := 0
	in.call(fr.stack, fn, args, free, st, func(st *State, ret []*Term, pos token.Pos) {
		n++
		k(st, packRet(ret), true)
	})
}

func (in *Interp) builtin(fr *frame, x *ssa.Call, bi *ssa.Builtin, args []*Term, st *State, k callK) {
	c := x.Common()
	switch bi.Name() {
	case "len":
		k(st, in.lenOf(st, args[0], c.Args[0].Type()), false)
	case "cap":
		k(st, App("cap", types.Typ[types.Int], args[0]), false)
	case "append":
		parts := append([]*Term(nil), in.parts(st, args[0])...)
		fresh := len(parts) == 0 && args[0].Op != "sub"
		if len(args) > 1 {
			if isStringType(c.Args[1].Type()) {
				parts = append(parts, in.parts(st, ToBytes(args[1]))...)
			} else {
				parts = append(parts, in.parts(st, args[1])...)
			}
		}
		if fresh {
			k(st, CopyOf(x.Type(), parts), false)
			break
		}
		k(st, Seq(x.Type(), parts), false)
	case "clear":
		m := args[0]
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); !ok {
			st.event(Event{Kind: "call", Name: "clear", Args: args, Pos: x.Pos()})
			k(st, Tuple(), false)
			break
		}
		in.clearMap(st, m, x.Pos())
		k(st, Tuple(), false)
	case "delete":
		m, key := args[0], args[1]
		cont := st.mapContent(m)
		if m.Op != "mapref" {
			st.event(Event{Kind: "mapdel", Args: []*Term{m, key}, Pos: x.Pos()})
		}
		st.heap[m] = mk(Term{Op: "mdel", Args: []*Term{cont, key}, T: m.T})
		k(st, Tuple(), false)
	case "min", "max":
		in.minmax(st, bi.Name() == "min", args, k)
	case "ssa:wrapnilchk":
		k(st, args[0], false)
	case "copy":
		d := args[0]
		if d.Op == "slice" {
			arr := d.Args[0]
			// copy into a freshly made slice of the same length
			src := in.parts(st, args[1])
			if d.Args[1].IsInt() && d.Args[1].K == 0 {
				n := Len(Seq(nil, src))
				if n == Len(d) || st.F.Truth(EqInt(n, Len(d))) == 1 {
					t := arr.elem()
					st.heap[arr] = mk(Term{Op: "seq", Args: src, T: t})
					k(st, n, false)
					return
				}
			}
			t := arr.elem()
			ep := st.tick()
			st.Store(arr, App(fmt.Sprintf("copied%d", ep), t, arr, args[1]), t)
		} else {
			st.event(Event{Kind: "call", Name: "copy", Args: args, Pos: x.Pos()})
		}
		k(st, App("copyn", types.Typ[types.Int], args...), false)
	default:
		st.event(Event{Kind: "call", Name: bi.Name(), Args: args, Pos: x.Pos()})
		var res *Term = Tuple()
		if v, ok := x.Type().(*types.Tuple); !ok || v.Len() > 0 {
			res = App(bi.Name(), x.Type(), args...)
		}
		k(st, res, false)
	}
}

// parts of a slice value as sequence parts, without resolving element content.
func (in *Interp) parts(st *State, s *Term) []*Term {
	switch s.Op {
	case "nil":
		return nil
	case "seq":
		return s.Args
	case "slice":
		arr := st.Load(s.Args[0], s.Args[0].elem())
		lo, hi := s.Args[1], s.Args[2]
		if arr.Op == "arr" && lo.IsInt() && hi.IsInt() && lo.K >= 0 && lo.K <= hi.K && hi.K <= int64(len(arr.Args)) {
			var ps []*Term
			for _, a := range arr.Args[lo.K:hi.K] {
				ps = append(ps, El(a))
			}
			return ps
		}
		if lo == hi {
			return nil
		}
		if arr.Op == "seq" && lo.IsInt() && lo.K == 0 && hi == Len(arr) {
			return arr.Args
		}
		// snapshot of the array content
		return []*Term{Spread(SubSeq(arr, lo, hi))}
	case "tobytes":
		if s.Args[0].IsStr() {
			var ps []*Term
			for i := 0; i < len(s.Args[0].S); i++ {
				ps = append(ps, El(Int(int64(s.Args[0].S[i]))))
			}
			return ps
		}
	}
	if h, ok := st.heap[s]; ok {
		return []*Term{Spread(h)}
	}
	if n, ok := st.F.Exact(Len(s)); ok && n == 0 {
		return nil
	}
	return []*Term{Spread(s)}
}

func (in *Interp) minmax(st *State, isMin bool, args []*Term, k callK) {
	var rec func(st *State, cur *Term, rest []*Term, forked bool)
	rec = func(st *State, cur *Term, rest []*Term, forked bool) {
		if len(rest) == 0 {
			k(st, cur, forked)
			return
		}
		b := rest[0]
		c := Le(cur, b)
		pick := func(s *State, le, fk bool) {
			if le == isMin {
				rec(s, cur, rest[1:], fk)
			} else {
				rec(s, b, rest[1:], fk)
			}
		}
		switch st.F.Truth(c) {
		case 1:
			pick(st, true, forked)
		case -1:
			pick(st, false, forked)
		default:
			s2 := st.Clone()
			if st.F.Assume(c, true) {
				pick(st, true, true)
			}
			if s2.F.Assume(c, false) {
				pick(s2, false, true)
			}
		}
	}
	rec(st, args[0], args[1:], false)
}

var _ = strings.Contains

// isOutput: a place text or elements are appended to.
func isOutput(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	if _, ok := p.Elem().Underlying().(*types.Slice); ok {
		return true
	}
	return isBuilder(p.Elem())
}

func isBuilder(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder" || n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer")
}

// output makes the content of p a function of what it was and of the call.
func (in *Interp) output(st *State, p *Term, t types.Type, name string, args []*Term) {
	et := t.Underlying().(*types.Pointer).Elem()
	if isBuilder(et) {
		st.heap[mk(Term{Op: "bld", Args: []*Term{p}})] = App(name, tString, append([]*Term{in.strOf(st, p)}, args...)...)
		return
	}
	switch p.Op {
	case "sym", "ref", "faddr", "fld":
		st.Store(p, App(name, et, append([]*Term{st.Deep(st.Load(p, et))}, args...)...), et)
	}
}

// writesParam: fn may write through its i-th parameter.
func writesParam(fn *ssa.Function, i int, on map[*ssa.Function]bool) bool {
	if i >= len(fn.Params) || fn.Params[i].Referrers() == nil || on[fn] {
		return false
	}
	on[fn] = true
	defer delete(on, fn)
	return writesThrough(fn.Params[i], on)
}

func writesThrough(v ssa.Value, on map[*ssa.Function]bool) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			return true
		case *ssa.MakeClosure, *ssa.Phi, *ssa.MakeInterface:
			return true
		case ssa.CallInstruction:
			c := x.Common()
			sc := c.StaticCallee()
			for j, a := range c.Args {
				if a != v {
					continue
				}
				if sc == nil || len(sc.Blocks) == 0 || sc.Pkg == nil || x.Parent().Pkg != sc.Pkg {
					if sc != nil && (sc.Name() == "Len" || sc.Name() == "String" || sc.Name() == "Cap") {
						continue
					}
					return true
				}
				if writesParam(sc, j, on) {
					return true
				}
			}
		}
	}
	return false
}
