package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Mode says how a call is treated.
type Mode int

const (
	Inline Mode = iota
	Effect      // record an event, apply its write summary, result is an application term
	Pure        // result is an application term
)

// Outcome is the end of one trace partition.
type Outcome struct {
	Kind string // return, panic, back
	Ret  []*Term
	St   *State
	Loop *Loop
	Next []*Term         // for back: next values of Loop.Phis
	base map[*Term]*Term // memory at the start, when not the function's own
	// After gives, for back, what happens when this iteration is the last.
	After func() []*Outcome
	Pos   token.Pos
	Fn    *ssa.Function
}

// Interp drives the analysis of one function.
type Interp struct {
	Prog *ssa.Program
	// Policy decides how calls to functions with bodies are treated.
	Policy func(fn *ssa.Function) Mode
	// Summary overrides the write summary of an opaque callee.
	Summary func(fn *ssa.Function) *ModSet
	// TouchOf overrides the read/write summary of an opaque callee.
	TouchOf func(fn *ssa.Function) *ModSet
	// Consts are package variables whose value is fixed at initialisation.
	Consts map[*ssa.Global]*Term
	// Local reports whether a function belongs to the analysed packages.
	Local func(fn *ssa.Function) bool

	OnIndex func(st *State, fn *ssa.Function, pos token.Pos, seq, idx *Term, upperInclusive bool)
	OnDeref func(st *State, fn *ssa.Function, pos token.Pos, ptr *Term)
	OnDiv   func(st *State, fn *ssa.Function, pos token.Pos, div *Term)
	OnCall  func(st *State, caller *ssa.Function, pos token.Pos, fn *ssa.Function, name string, args []*Term)

	MaxSteps int
	MaxDepth int
	NoWiden  bool

	// Dups counts the loop cells that share a base name, Perm renumbers them.
	Dups map[string]int
	Perm map[string][]int

	Outcomes  []*Outcome
	Undecided []string

	blocks int
	steps  int
	muted  int
	loops  map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	Fns    map[*ssa.Function]bool // functions interpreted
	Paths  int
	base   map[*Term]*Term
	// RecClosures are the closures called from within themselves.
	RecClosures map[string]*ssa.Function
	// Peeled counts the loop exits examined on demand.
	Peeled int
	// Peel, when positive, analyses that many iterations of every loop one by
	// one instead of an arbitrary one; longer runs are left out (Cut).
	Peel int
	Cut  []*Facts
	// PeelTotal, when positive, bounds the iterations of all loops together.
	PeelTotal int
}

type loopCtx struct {
	blocks   map[*ssa.BasicBlock]bool
	onBack   func(fr *frame, st *State, next []*Term)
	discover bool
}

// deferred is a call to be made when the function returns.
type deferred struct {
	call  *ssa.CallCommon
	value *Term
	args  []*Term
	pos   token.Pos
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	wid    map[*ssa.BasicBlock]*loopCtx
	unroll map[*ssa.BasicBlock]int
	stack  []*ssa.Function
	defers []deferred
	allocs map[*ssa.Alloc]int
	// exitOnly is a loop header from which only the exit is taken.
	exitOnly *ssa.BasicBlock
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, env: make(map[ssa.Value]*Term, len(f.env)), wid: map[*ssa.BasicBlock]*loopCtx{}, unroll: map[*ssa.BasicBlock]int{}, stack: f.stack, defers: f.defers, exitOnly: f.exitOnly}
	for k, v := range f.env {
		n.env[k] = v
	}
	for k, v := range f.wid {
		n.wid[k] = v
	}
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	return n
}

func (in *Interp) undecided(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for _, u := range in.Undecided {
		if u == s {
			return
		}
	}
	in.Undecided = append(in.Undecided, s)
}

// Run analyses fn on the given arguments from st and collects Outcomes.
func (in *Interp) Run(fn *ssa.Function, args []*Term, st *State) {
	if in.MaxSteps == 0 {
		in.MaxSteps = 400000
	}
	if in.MaxDepth == 0 {
		in.MaxDepth = 12
	}
	in.init()
	in.call(nil, fn, args, nil, st, func(st *State, ret []*Term, pos token.Pos) {
		in.emit(&Outcome{Kind: "return", Ret: ret, St: st, Pos: pos, Fn: fn})
	})
}

func (in *Interp) init() {
	in.loops = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	if in.Fns == nil {
		in.Fns = map[*ssa.Function]bool{}
	}
	if in.RecClosures == nil {
		in.RecClosures = map[string]*ssa.Function{}
	}
}

func (in *Interp) emit(o *Outcome) {
	if in.muted > 0 {
		return
	}
	in.Paths++
	o.base = in.base
	in.Outcomes = append(in.Outcomes, o)
}

type retK func(st *State, ret []*Term, pos token.Pos)

func (in *Interp) call(stack []*ssa.Function, fn *ssa.Function, args []*Term, free []*Term, st *State, k retK) {
	if len(fn.Blocks) == 0 {
		in.undecided("no body: %s", fn)
		return
	}
	in.Fns[fn] = true
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, wid: map[*ssa.BasicBlock]*loopCtx{}, unroll: map[*ssa.BasicBlock]int{}}
	fr.stack = append(append([]*ssa.Function(nil), stack...), fn)
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = Sym(p.Name(), p.Type())
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			fr.env[f] = free[i]
		} else {
			fr.env[f] = Sym("free."+f.Name(), f.Type())
		}
	}
	in.block(fr, fn.Blocks[0], nil, st, k)
}

func (in *Interp) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := in.loops[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				set := l[s]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{s: true}
					l[s] = set
				}
				var w []*ssa.BasicBlock
				if !set[b] {
					set[b] = true
					w = append(w, b)
				}
				for len(w) > 0 {
					x := w[len(w)-1]
					w = w[:len(w)-1]
					for _, p := range x.Preds {
						if !set[p] {
							set[p] = true
							w = append(w, p)
						}
					}
				}
			}
		}
	}
	in.loops[fn] = l
	return l
}

// Global returns the term of a package variable's address.
func Global(g *ssa.Global) *Term {
	return mk(Term{Op: "global", S: g.Pkg.Pkg.Name() + "." + g.Name(), T: elemType(g.Type())})
}

func (in *Interp) val(fr *frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return Global(x)
	case *ssa.Function:
		return mk(Term{Op: "func", Fn: x, S: x.String(), T: x.Type()})
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	return Sym("?"+v.Name(), v.Type())
}

// ConstTerm converts an SSA constant.
func ConstTerm(c *ssa.Const) *Term { return constTerm(c) }

// StrAlias maps long texts that are analysed on their own to a stand-in.
var StrAlias = map[string]string{}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return Zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		s := constant.StringVal(c.Value)
		if a, ok := StrAlias[s]; ok {
			s = a
		}
		return Str(s)
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mk(Term{Op: "float", S: c.Value.ExactString()})
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return Int(i)
		}
		return mk(Term{Op: "bigint", S: c.Value.ExactString(), T: c.Type()})
	}
	return mk(Term{Op: "float", S: c.Value.ExactString()})
}

// block enters b from prev.
func (in *Interp) block(fr *frame, b, prev *ssa.BasicBlock, st *State, k retK) {
	if in.blocks++; in.blocks&31 == 0 {
		CheckTime()
	}
	if in.steps > in.MaxSteps {
		in.undecided("step limit in %s", fr.fn)
		return
	}
	// leaving a loop under discovery
	for _, c := range fr.wid {
		if c.discover && !c.blocks[b] {
			return
		}
	}
	// forget widened loops we have left
	for h, c := range fr.wid {
		if !c.blocks[b] {
			delete(fr.wid, h)
		}
	}
	if set, isHeader := in.loopsOf(fr.fn)[b]; isHeader {
		back := prev != nil && set[prev]
		if back {
			if c := fr.wid[b]; c != nil {
				var next []*Term
				for _, p := range phis(b) {
					next = append(next, in.val(fr, p.Edges[predIdx(b, prev)]))
				}
				c.onBack(fr, st, next)
				return
			}
		} else {
			fr.unroll[b] = 0
		}
		vals := map[*ssa.Phi]*Term{}
		for _, p := range phis(b) {
			vals[p] = in.val(fr, p.Edges[predIdx(b, prev)])
		}
		if exit, m := clearLoop(b, set); exit != nil && !back {
			in.clearMap(st, in.val(fr, m), posOf(b))
			in.block(fr, exit, b, st, k)
			return
		}
		if !longBranchy(b, set) && in.peekDecided(fr, b, vals, st) && fr.unroll[b] < 600 {
			fr.unroll[b]++
			for p, v := range vals {
				fr.env[p] = v
			}
			in.instrs(fr, b, len(phis(b)), st, k)
			return
		}
		if in.Peel > 0 {
			if fr.unroll[b] > 0 {
				st.turns++
			}
			if fr.unroll[b] > in.Peel || in.PeelTotal > 0 && st.turns > in.PeelTotal {
				in.Cut = append(in.Cut, st.F)
				return
			}
			fr.unroll[b]++
			for p, v := range vals {
				fr.env[p] = v
			}
			in.instrs(fr, b, len(phis(b)), st, k)
			return
		}
		in.widen(fr, b, vals, set, st, k)
		return
	}
	ps := phis(b)
	if len(ps) > 0 {
		i := predIdx(b, prev)
		vals := make([]*Term, len(ps))
		for j, p := range ps {
			vals[j] = in.val(fr, p.Edges[i])
		}
		for j, p := range ps {
			fr.env[p] = vals[j]
		}
	}
	in.instrs(fr, b, len(ps), st, k)
}

// longBranchy reports whether a loop counts to a constant too large to follow
// every way through its body.
func longBranchy(b *ssa.BasicBlock, set map[*ssa.BasicBlock]bool) bool {
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	long := false
	for _, v := range []ssa.Value{cmp.X, cmp.Y} {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && isIntType(c.Type()) && c.Int64() > 40 {
			long = true
		}
	}
	if !long {
		return false
	}
	for o := range set {
		if o != b && len(o.Succs) > 1 {
			return true
		}
		for _, i := range o.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if _, ok := c.Call.Value.(*ssa.Builtin); !ok {
					return true
				}
			}
		}
	}
	return false
}

// clearLoop recognises the loop that deletes every key of a map.
func clearLoop(b *ssa.BasicBlock, set map[*ssa.BasicBlock]bool) (*ssa.BasicBlock, ssa.Value) {
	if len(set) != 2 || len(b.Instrs) != 3 || len(b.Succs) != 2 {
		return nil, nil
	}
	n, ok := b.Instrs[0].(*ssa.Next)
	if !ok || n.IsString {
		return nil, nil
	}
	rg, ok := n.Iter.(*ssa.Range)
	body, exit := b.Succs[0], b.Succs[1]
	if !ok || !set[body] || set[exit] || len(phis(exit)) > 0 {
		return nil, nil
	}
	var key ssa.Value
	deleted := false
	for _, i := range body.Instrs {
		switch x := i.(type) {
		case *ssa.Extract:
			if x.Tuple != n || x.Index != 1 {
				return nil, nil
			}
			key = x
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.Jump, *ssa.DebugRef:
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "delete" || x.Call.Args[1] != key || !sameLoad(x.Call.Args[0], rg.X) {
				return nil, nil
			}
			deleted = true
		default:
			return nil, nil
		}
	}
	if !deleted {
		return nil, nil
	}
	return exit, rg.X
}

// sameLoad reports whether two values are the same, or loads of one field of
// one object.
func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && sameLoad(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameLoad(x.X, y.X)
	}
	return false
}

func (in *Interp) clearMap(st *State, m *Term, pos token.Pos) {
	if m.Op != "mapref" {
		st.event(Event{Kind: "mapdel", Args: []*Term{m, Sym("every key", nil)}, Pos: pos})
	}
	st.heap[m] = mk(Term{Op: "mempty"})
}

func phis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func predIdx(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return 0
}

// peekDecided reports whether the header's own exit test is constant for these
// phi values, i.e. the loop runs over a statically known table.
func (in *Interp) peekDecided(fr *frame, b *ssa.BasicBlock, vals map[*ssa.Phi]*Term, st *State) bool {
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	fr2 := fr.clone()
	for p, v := range vals {
		fr2.env[p] = v
	}
	st2 := st.Clone()
	dec := false
	in.muted++
	savedU := in.Undecided
	oi, od, ov, oc := in.OnIndex, in.OnDeref, in.OnDiv, in.OnCall
	in.OnIndex, in.OnDeref, in.OnDiv, in.OnCall = nil, nil, nil, nil
	n := 0
	for i := len(phis(b)); i < len(b.Instrs); i++ {
		switch x := b.Instrs[i].(type) {
		case *ssa.If:
			c := in.val(fr2, x.Cond)
			dec = c.IsBool()
			if !dec && (c.Op == "le0" || c.Op == "eq0") {
				if _, ok := st2.F.Exact(c.Args[0]); ok {
					dec = true
				}
			}
			n++
		case *ssa.Next:
			it := in.val(fr2, x.Iter)
			if it.Op != "iter" {
				i = len(b.Instrs)
				break
			}
			if d, res := in.nextConcrete(st2, it, x); d {
				fr2.env[x] = res
			} else {
				fr2.env[x] = Sym("?next", nil)
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				a := in.val(fr2, x.Call.Args[0])
				fr2.env[x] = in.lenOf(st2, a, x.Call.Args[0].Type())
			} else {
				i = len(b.Instrs)
			}
		case *ssa.UnOp, *ssa.BinOp, *ssa.Extract, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.DebugRef:
			if _, ok := b.Instrs[i].(*ssa.DebugRef); !ok {
				in.simple(fr2, b.Instrs[i], st2)
			}
		default:
			i = len(b.Instrs)
		}
	}
	_ = ifi
	in.OnIndex, in.OnDeref, in.OnDiv, in.OnCall = oi, od, ov, oc
	in.muted--
	in.Undecided = savedU
	return dec
}

func (in *Interp) widen(fr *frame, b *ssa.BasicBlock, init map[*ssa.Phi]*Term, set map[*ssa.BasicBlock]bool, st *State, k retK) {
	ps := phis(b)
	ord := st.nloop + 1
	if in.muted == 0 {
		st.nloop = ord
	} else {
		st.nloop = ord
	}
	type hkey struct {
		root  *Term
		field int
	}
	hv := map[hkey]bool{}
	var hvOrder []hkey
	nsym := Sym(fmt.Sprintf("n#%d", ord), types.Typ[types.Int])
	apply := func(s *State) []LoopHeap {
		var lh []LoopHeap
		dups := map[string]int{}
		name := func(init *Term, t types.Type) string {
			return in.dupName(fmt.Sprintf("H%d.%s.%d", ord, typeKey(t), s.Deep(init).id), dups)
		}
		for _, h := range hvOrder {
			t := s.types[h.root]
			cur := s.heap[h.root]
			if cur == nil {
				if h.root.Op == "mapref" || isMap(h.root.T) {
					cur = s.mapContent(h.root)
				} else {
					cur = s.content(h.root, t)
				}
			}
			if h.field < 0 {
				ct := contentType(h.root, cur, t)
				if isMap(h.root.T) {
					ct = h.root.T
				}
				sym := Sym(name(cur, ct), ct)
				if isMap(h.root.T) {
					sym = mk(Term{Op: "m0", Args: []*Term{sym}, T: h.root.T})
				}
				lh = append(lh, LoopHeap{h.root, -1, sym, cur})
				s.heap[h.root] = sym
				continue
			}
			stt := StructType(t)
			sym := Sym(name(Field(cur, h.field, nil), stt.Field(h.field).Type()), stt.Field(h.field).Type())
			lh = append(lh, LoopHeap{h.root, h.field, sym, Field(cur, h.field, nil)})
			s.heap[h.root] = WithField(cur, t, h.field, sym)
		}
		return lh
	}
	merged := &ModSet{Fields: map[string]bool{}, Maps: map[string]bool{}}
	newMods := false
	linStep := map[*ssa.Phi]int64{}
	growStep := map[*ssa.Phi]int64{}
	inv := map[*ssa.Phi]bool{}
	lenStep := map[hkey]int64{}
	// optimistic: every phi invariant first is unsound; start from all havoced.
	for round := 0; round < 8; round++ {
		fr1 := fr.clone()
		s1 := st.Clone()
		cells := apply(s1)
		syms := make([]*Term, len(ps))
		for i, p := range ps {
			syms[i] = Sym(fmt.Sprintf("D%d.%d", ord, i), p.Type())
			fr1.env[p] = syms[i]
		}
		before := s1.Clone()
		var nexts [][]*Term
		var ends []*State
		fr1.wid[b] = &loopCtx{blocks: set, discover: true, onBack: func(_ *frame, s *State, n []*Term) {
			nexts = append(nexts, n)
			ends = append(ends, s)
		}}
		in.muted++
		oi, od, ov, oc := in.OnIndex, in.OnDeref, in.OnDiv, in.OnCall
		in.OnIndex, in.OnDeref, in.OnDiv, in.OnCall = nil, nil, nil, nil
		in.instrs(fr1, b, len(ps), s1, func(*State, []*Term, token.Pos) {})
		in.OnIndex, in.OnDeref, in.OnDiv, in.OnCall = oi, od, ov, oc
		in.muted--
		grew := false
		for _, e := range ends {
			var rs []*Term
			for r := range e.heap {
				rs = append(rs, r)
			}
			sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
			for _, r := range rs {
				if iterDependent(r) {
					continue // a different object in every iteration
				}
				v := e.heap[r]
				if before.heap[r] == v {
					continue
				}
				if r.Op == "ref" || r.Op == "mapref" {
					if _, existed := before.heap[r]; !existed {
						continue // allocated inside the iteration
					}
				}
				t := e.types[r]
				old := before.heap[r]
				if stt := StructType(t); stt != nil {
					if old == nil {
						old = before.content(r, t)
					}
					for f := 0; f < stt.NumFields(); f++ {
						if Field(old, f, nil) != Field(v, f, nil) && !hv[hkey{r, f}] {
							hv[hkey{r, f}] = true
							hvOrder = append(hvOrder, hkey{r, f})
							st.types[r] = t
							grew = true
						}
					}
					continue
				}
				if !hv[hkey{r, -1}] {
					hv[hkey{r, -1}] = true
					hvOrder = append(hvOrder, hkey{r, -1})
					st.types[r] = t
					grew = true
				}
			}
			// opaque calls in the body write: everything they may write is
			// unknown at the header of an arbitrary iteration.
			for _, h := range e.havocs[len(before.havocs):] {
				if merged.add(h.mods) {
					newMods = true
				}
			}
		}
		if newMods {
			if len(merged.Fields) > 0 || len(merged.Maps) > 0 {
				st.havocAll(merged.clone(), true)
			}
			newMods = false
			grew = true
		}
		linStep = map[*ssa.Phi]int64{}
		inv = map[*ssa.Phi]bool{}
		for i, p := range ps {
			inv[p] = true
			lin := true
			var step int64
			for j, n := range nexts {
				if n[i] != syms[i] {
					inv[p] = false
				}
				if !lin {
					continue
				}
				if !intLike(syms[i]) {
					lin = false
					continue
				}
				d := Sub(n[i], syms[i])
				if !d.IsInt() {
					lin = false
					continue
				}
				if j == 0 {
					step = d.K
				} else if step != d.K {
					lin = false
				}
			}
			if len(nexts) > 0 && lin && !inv[p] && step != 0 {
				linStep[p] = step
			}
			delete(growStep, p)
			grow := int64(-1)
			for _, n := range nexts {
				g := int64(-1)
				if q := n[i]; q.Op == "seq" && len(q.Args) > 1 && q.Args[0].Op == "spread" && q.Args[0].Args[0] == syms[i] {
					g = int64(len(q.Args) - 1)
					for _, x := range q.Args[1:] {
						if x.Op != "el" {
							g = -1
						}
					}
				}
				if g < 0 || grow >= 0 && g != grow {
					grow = -1
					break
				}
				grow = g
			}
			if grow > 0 {
				growStep[p] = grow
			}
		}
		if !grew {
			for _, c := range cells {
				if !sliceTyped(c.Sym.T) || len(ends) == 0 {
					continue
				}
				// the length of a slice kept in memory, from one iteration to
				// the next: a constant more or less than it was, or tied to a
				// variable that counts
				rel := map[*ssa.Phi]int64{}
				step, own := int64(0), true
				for j, e := range ends {
					v := e.heap[c.Root]
					if v == nil {
						own, rel = false, nil
						break
					}
					if c.Field >= 0 {
						v = Field(v, c.Field, nil)
					}
					n := Len(e.F.Resolve(v))
					if d := Sub(n, Len(c.Sym)); !d.IsInt() || j > 0 && d.K != step {
						own = false
					} else {
						step = d.K
					}
					for i, p := range ps {
						if linStep[p] == 0 {
							continue
						}
						d := Sub(n, syms[i])
						if was, ok := rel[p]; !d.IsInt() || j > 0 && (!ok || was != d.K) {
							delete(rel, p)
						} else {
							rel[p] = d.K
						}
					}
				}
				h := hkey{c.Root, c.Field}
				if own && step != 0 {
					lenStep[h] = step
				}
				for _, p := range ps {
					c0, ok := rel[p]
					if ok && Sub(Sub(Add(init[p], Int(c0)), Len(st.F.Resolve(c.Init))), Int(linStep[p])) == Int(0) {
						lenStep[h] = linStep[p]
					}
				}
			}
			break
		}
	}
	lp := &Loop{Ord: ord, Header: b, N: nsym, Pos: posOf(b)}
	s2 := st
	lp.Heap = apply(s2)
	for _, c := range lp.Heap {
		if step := lenStep[hkey{c.Root, c.Field}]; step != 0 {
			n := Add(Len(s2.F.Resolve(c.Init)), Scale(nsym, step))
			s2.F.tag = true
			s2.F.Assume(EqInt(Len(c.Sym), n), true)
			s2.F.tag = false
			if step < 0 {
				s2.F.bind[Len(c.Sym)] = n
			}
		}
	}
	dups := map[string]int{}
	usesN := false
	for _, p := range ps {
		lv := LoopVar{Phi: p, Init: init[p]}
		switch {
		case inv[p]:
			lv.Sym = init[p]
			lv.Lin = true
		case linStep[p] != 0:
			lv.Sym = Add(init[p], Scale(nsym, linStep[p]))
			lv.Lin = true
			usesN = true
		default:
			base := fmt.Sprintf("L%d.%s.%d", ord, typeKey(p.Type()), s2.Deep(init[p]).id)
			lv.Sym = Sym(in.dupName(base, dups), p.Type())
			if g := growStep[p]; g > 0 {
				// one append per iteration: the length counts the iterations
				s2.F.tag = true
				s2.F.Assume(EqInt(in.lenOf(s2, lv.Sym, p.Type()), Add(in.lenOf(s2, init[p], p.Type()), Scale(nsym, g))), true)
				s2.F.tag = false
			}
		}
		fr.env[p] = lv.Sym
		lp.Phis = append(lp.Phis, lv)
	}
	_ = usesN
	s2.Loops = append(s2.Loops, lp)
	s2.event(Event{Kind: "loop", Loop: lp, Pos: lp.Pos})
	fr.wid[b] = &loopCtx{blocks: set, onBack: func(fb *frame, s *State, next []*Term) {
		o := &Outcome{Kind: "back", St: s, Loop: lp, Next: next, Pos: lp.Pos, Fn: fr.fn}
		done := false
		var after []*Outcome
		o.After = func() []*Outcome {
			if done {
				return after
			}
			done = true
			if in.Peeled++; in.Peeled > 40 {
				return nil
			}
			f, s := fb.clone(), s.Clone()
			for i, p := range ps {
				f.env[p] = next[i]
			}
			f.exitOnly = b
			so, su, sp, ss := in.Outcomes, in.Undecided, in.Paths, in.steps
			in.Outcomes = nil
			in.instrs(f, b, len(ps), s, k)
			after = in.Outcomes
			in.Outcomes, in.Undecided, in.Paths, in.steps = so, su, sp, ss
			return after
		}
		in.emit(o)
	}}
	in.instrs(fr, b, len(ps), s2, k)
}

// iterDependent reports whether a term names an unknown of the discovery pass,
// i.e. an object that depends on the iteration.
func iterDependent(t *Term) bool {
	dep := false
	t.Walk(func(x *Term) bool {
		if x.Op == "sym" && len(x.S) > 2 && x.S[0] == 'D' && x.S[1] >= '0' && x.S[1] <= '9' {
			dep = true
		}
		return !dep
	})
	return dep
}

// dupName numbers loop-carried cells that start from the same value; Perm
// renumbers them, so that a comparison can look for a matching correspondence.
func (in *Interp) dupName(base string, dups map[string]int) string {
	i := dups[base]
	dups[base]++
	if in.Dups == nil {
		in.Dups = map[string]int{}
	}
	if dups[base] > in.Dups[base] {
		in.Dups[base] = dups[base]
	}
	if p := in.Perm[base]; i < len(p) {
		i = p[i]
	}
	return fmt.Sprintf("%s.%d", base, i)
}

func contentType(root, cur *Term, t types.Type) types.Type {
	if t != nil {
		return t
	}
	return cur.T
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func posOf(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if p := i.Pos(); p.IsValid() {
			return p
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if p := i.Pos(); p.IsValid() {
				return p
			}
		}
	}
	return b.Parent().Pos()
}

// confined reports whether only the function that makes a map can reach it
// while the function runs.
func confined(v ssa.Value, root bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef, *ssa.Lookup, *ssa.Range, *ssa.BinOp:
			case *ssa.MapUpdate:
				if x.Key == v || x.Value == v {
					return false
				}
			case *ssa.Phi:
				if !walk(x) {
					return false
				}
			case *ssa.Return:
				if !root {
					return false
				}
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return walk(v)
}

func (in *Interp) applyMods(st *State, m *ModSet) {
	if len(m.Fields) == 0 && len(m.Maps) == 0 {
		return
	}
	st.havocAll(m, false)
}

// havocAll forgets what m may write. With keep, what was written before stays
// part of the new content: at the head of a loop no call has looked at it yet.
func (st *State) havocAll(m *ModSet, keep bool) {
	h := havoc{m, st.tick()}
	was := st
	if keep {
		was = st.Clone()
	}
	for r, v := range st.heap {
		keep := keep && r.Op != "ref" && r.Op != "mapref"
		if t := st.types[r]; t != nil {
			if stt := StructType(t); stt != nil {
				nv := havocStruct(v, r, t, stt, h)
				if keep {
					base := was.applyHavocs(r, mk(Term{Op: "deref", Args: []*Term{r}, T: t}), t)
					for i := 0; i < stt.NumFields(); i++ {
						if f := Field(v, i, nil); f != Field(nv, i, nil) && f != Field(base, i, nil) {
							g := Field(nv, i, nil)
							nv = WithField(nv, t, i, App(g.S, g.T, append(append([]*Term(nil), g.Args...), was.Deep(f))...))
						}
					}
				}
				st.heap[r] = nv
			}
		}
		if r.Op != "ref" && isMap(r.T) && m.Maps[typeKey(r.T)] && !st.conf[r] { // a ref is a variable that holds a map
			as := []*Term{r}
			if r.Op == "mapref" {
				as = append(as, v)
			} else if keep && v.Op != "m0" {
				as = append(as, was.Deep(v))
			}
			st.heap[r] = mk(Term{Op: "m0", Args: []*Term{App(fmt.Sprintf("mapafter%d", h.epoch), r.T, as...)}, T: r.T})
		}
	}
	st.havocs = append(st.havocs, h)
}

// instrs executes from instruction i of b.
func (in *Interp) instrs(fr *frame, b *ssa.BasicBlock, i int, st *State, k retK) {
	for ; i < len(b.Instrs); i++ {
		in.steps++
		if in.steps > in.MaxSteps {
			in.undecided("step limit in %s", fr.fn)
			return
		}
		ins := b.Instrs[i]
		switch x := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			c := in.val(fr, x.Cond)
			if fr.exitOnly == b {
				fr.exitOnly = nil
				lc := fr.wid[b]
				if lc == nil {
					return
				}
				for i, s := range b.Succs {
					if !lc.blocks[s] && st.F.Assume(c, i == 0) {
						in.block(fr, s, b, st, k)
						return
					}
				}
				return
			}
			switch st.F.Truth(c) {
			case 1:
				in.block(fr, b.Succs[0], b, st, k)
				return
			case -1:
				in.block(fr, b.Succs[1], b, st, k)
				return
			}
			st2, fr2 := st.Clone(), fr.clone()
			exit := -1
			if lc := fr.wid[b]; lc != nil {
				for i, s := range b.Succs {
					if !lc.blocks[s] {
						exit = i
					}
				}
			}
			assume := func(st *State, pos bool, i int) bool {
				st.F.tag = exit == i
				ok := st.F.Assume(c, pos)
				st.F.tag = false
				return ok
			}
			if assume(st, true, 0) {
				in.block(fr, b.Succs[0], b, st, k)
			}
			if assume(st2, false, 1) {
				in.block(fr2, b.Succs[1], b, st2, k)
			}
			return
		case *ssa.Jump:
			in.block(fr, b.Succs[0], b, st, k)
			return
		case *ssa.Return:
			rs := make([]*Term, len(x.Results))
			for j, r := range x.Results {
				rs[j] = in.val(fr, r)
			}
			k(st, rs, x.Pos())
			return
		case *ssa.Panic:
			v := in.val(fr, x.X)
			st.event(Event{Kind: "panic", Args: []*Term{v}, Pos: x.Pos()})
			in.emit(&Outcome{Kind: "panic", Ret: []*Term{v}, St: st, Pos: x.Pos(), Fn: fr.fn})
			return
		case *ssa.RunDefers:
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				fr.defers = fr.defers[: n-1 : n-1]
				in.dispatch(fr, d.call, d.value, d.args, d.pos, st, func(st *State, res *Term, forked bool) {
					f := fr
					if forked {
						f = fr.clone()
					}
					in.instrs(f, b, i, st, k)
				})
				return
			}
		case *ssa.Defer:
			if x.DeferStack != nil {
				in.undecided("%T in %s", ins, fr.fn)
				return
			}
			d := deferred{call: &x.Call, pos: x.Pos()}
			if _, ok := x.Call.Value.(*ssa.Builtin); ok {
				in.undecided("%T in %s", ins, fr.fn)
				return
			}
			if _, ok := x.Call.Value.(*ssa.Function); !ok {
				d.value = in.val(fr, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, in.val(fr, a))
			}
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
		case *ssa.Go:
			// what runs beside is a function value like any other
			var all []*Term
			if x.Call.IsInvoke() {
				in.undecided("%T in %s", ins, fr.fn)
				return
			}
			all = append(all, st.Deep(in.val(fr, x.Call.Value)))
			for _, a := range x.Call.Args {
				all = append(all, st.Deep(in.val(fr, a)))
			}
			st.event(Event{Kind: "call", Name: "go", Args: all, Pos: x.Pos()})
		case *ssa.Select:
			var all []*Term
			for _, s := range x.States {
				a := mk(Term{Op: "tuple", Args: []*Term{Int(int64(s.Dir)), st.Deep(in.val(fr, s.Chan))}})
				if s.Send != nil {
					a = Tuple(a, st.Deep(in.val(fr, s.Send)))
				}
				all = append(all, a)
			}
			all = append(all, Bool(x.Blocking), Int(int64(st.tick())))
			st.event(Event{Kind: "call", Name: "select", Args: all, Pos: x.Pos()})
			tt := x.Type().(*types.Tuple)
			rs := make([]*Term, tt.Len())
			for i := range rs {
				rs[i] = App(fmt.Sprintf("select.%d", i), tt.At(i).Type(), all...)
			}
			if !st.F.Assume(Le(Int(0), rs[0]), true) || !st.F.Assume(Lt(rs[0], Int(int64(len(x.States)))), true) {
				return
			}
			fr.env[x] = Tuple(rs...)
		case *ssa.Send:
			st.event(Event{Kind: "call", Name: "send", Args: []*Term{st.Deep(in.val(fr, x.Chan)), st.Deep(in.val(fr, x.X))}, Pos: x.Pos()})
		case *ssa.Call:
			in.callInstr(fr, x, st, func(st *State, res *Term, forked bool) {
				f := fr
				if forked {
					f = fr.clone()
				}
				f.env[x] = res
				in.instrs(f, b, i+1, st, k)
			})
			return
		case *ssa.TypeAssert:
			in.typeAssert(fr, x, st, func(fr *frame, st *State) { in.instrs(fr, b, i+1, st, k) })
			return
		case *ssa.Lookup:
			if isMap(x.X.Type()) {
				in.lookup(fr, x, st, func(fr *frame, st *State) { in.instrs(fr, b, i+1, st, k) })
				return
			}
			seq, idx := in.val(fr, x.X), in.val(fr, x.Index)
			if in.OnIndex != nil {
				in.OnIndex(st, fr.fn, x.Pos(), seq, idx, false)
			}
			fr.env[x] = st.Index(seq, idx, x.Type())
		case *ssa.Next:
			in.next(fr, x, st, func(fr *frame, st *State) { in.instrs(fr, b, i+1, st, k) })
			return
		default:
			if !in.simple(fr, ins, st) {
				in.undecided("unsupported %T in %s", ins, fr.fn)
				return
			}
		}
	}
}

// simple executes non-branching instructions.
func (in *Interp) simple(fr *frame, ins ssa.Instruction, st *State) bool {
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := elemType(x.Type())
		r := mk(Term{Op: "ref", S: st.fresh(typeKey(t)), T: t})
		st.Store(r, Zero(t), t)
		fr.env[x] = r
	case *ssa.BinOp:
		fr.env[x] = in.binop(fr, x, st)
	case *ssa.UnOp:
		v := in.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			if in.OnDeref != nil {
				in.OnDeref(st, fr.fn, x.Pos(), v)
			}
			if g, ok := x.X.(*ssa.Global); ok {
				if c, ok := in.Consts[g]; ok {
					fr.env[x] = c
					break
				}
			}
			fr.env[x] = st.Load(v, x.Type())
		case token.NOT:
			fr.env[x] = Not(v)
		case token.SUB:
			if isIntType(x.Type()) {
				fr.env[x] = Scale(v, -1)
			} else {
				fr.env[x] = App("neg", x.Type(), v)
			}
		default:
			fr.env[x] = App("un"+x.Op.String(), x.Type(), v)
		}
	case *ssa.ChangeInterface:
		fr.env[x] = in.val(fr, x.X)
	case *ssa.ChangeType:
		v := in.val(fr, x.X)
		if v.Op == "struct" {
			v = mk(Term{Op: "struct", Args: v.Args, T: x.Type()})
		}
		fr.env[x] = v
	case *ssa.Convert:
		fr.env[x] = in.convert(st, in.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.env[x] = in.convert(st, in.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		t := in.val(fr, x.Tuple)
		if t.Op == "tuple" && x.Index < len(t.Args) {
			fr.env[x] = t.Args[x.Index]
		} else {
			fr.env[x] = App(fmt.Sprintf("extract%d", x.Index), x.Type(), t)
		}
	case *ssa.Field:
		v := in.val(fr, x.X)
		if v.T == nil {
			v.T = x.X.Type()
		}
		fr.env[x] = Field(v, x.Field, x.Type())
	case *ssa.FieldAddr:
		p := in.val(fr, x.X)
		if in.OnDeref != nil {
			in.OnDeref(st, fr.fn, x.Pos(), p)
		}
		pt := elemType(x.X.Type())
		fr.env[x] = FieldAddr(p, pt, x.Field)
	case *ssa.Index:
		seq, idx := in.val(fr, x.X), in.val(fr, x.Index)
		if in.OnIndex != nil {
			in.OnIndex(st, fr.fn, x.Pos(), seq, idx, false)
		}
		fr.env[x] = st.Index(seq, idx, x.Type())
	case *ssa.IndexAddr:
		b, idx := in.val(fr, x.X), in.val(fr, x.Index)
		_, isArr := elemType(x.X.Type()).Underlying().(*types.Array)
		_, isSl := x.X.Type().Underlying().(*types.Slice)
		if in.OnIndex != nil && !(isArr && !isSl && idx.IsInt()) { // the compiler checks a constant index of an array
			in.OnIndex(st, fr.fn, x.Pos(), b, idx, false)
		}
		fr.env[x] = mk(Term{Op: "iaddr", Args: []*Term{b, idx}, T: elemType(x.Type())})
	case *ssa.MakeChan:
		fr.env[x] = mk(Term{Op: "ref", S: st.fresh("chan")})
	case *ssa.MakeClosure:
		bs := make([]*Term, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = in.val(fr, b)
		}
		fr.env[x] = mk(Term{Op: "closure", Fn: x.Fn.(*ssa.Function), Args: bs, T: x.Type()})
	case *ssa.MakeInterface:
		v := in.val(fr, x.X)
		if v.Op == "as" && types.Identical(v.T, x.X.Type()) {
			fr.env[x] = v.Args[0]
		} else {
			fr.env[x] = mk(Term{Op: "iface", Args: []*Term{v}, T: x.X.Type()})
		}
	case *ssa.MakeMap:
		r := mk(Term{Op: "mapref", S: st.fresh("make" + typeKey(x.Type())), T: x.Type()})
		if confined(x, len(fr.stack) <= 1) {
			if st.conf == nil {
				st.conf = map[*Term]bool{}
			}
			st.conf[r] = true
		}
		st.heap[r] = mk(Term{Op: "mempty"})
		fr.env[x] = r
	case *ssa.MakeSlice:
		et := elemType(x.Type())
		r := mk(Term{Op: "ref", S: st.fresh("make" + typeKey(et)), T: types.NewArray(et, -1)})
		n := in.val(fr, x.Len)
		if n.IsInt() && n.K <= 4096 && n.K >= 0 {
			z := Zero(et)
			as := make([]*Term, n.K)
			for i := range as {
				as[i] = z
			}
			st.Store(r, mk(Term{Op: "arr", Args: as, T: types.NewArray(et, n.K)}), types.NewArray(et, n.K))
		} else {
			st.Store(r, mk(Term{Op: "zeroarr", T: types.NewArray(et, -1)}), types.NewArray(et, -1))
		}
		fr.env[x] = mk(Term{Op: "slice", Args: []*Term{r, Int(0), n}, T: x.Type()})
	case *ssa.MapUpdate:
		m, key, v := in.val(fr, x.Map), in.val(fr, x.Key), in.val(fr, x.Value)
		in.mapSet(st, m, key, v, x.Pos())
	case *ssa.Range:
		v := in.val(fr, x.X)
		var c *Term
		if isMap(x.X.Type()) {
			c = st.mapContent(v)
		} else {
			c = v
		}
		fr.env[x] = mk(Term{Op: "iter", S: st.fresh("iter"), Args: []*Term{v, c}, T: x.X.Type()})
	case *ssa.Slice:
		fr.env[x] = in.slice(fr, x, st)
	case *ssa.SliceToArrayPointer:
		return false
	case *ssa.Store:
		p, v := in.val(fr, x.Addr), in.val(fr, x.Val)
		if in.OnDeref != nil {
			in.OnDeref(st, fr.fn, x.Pos(), p)
		}
		if r := Root(p); r.Op != "ref" {
			st.event(Event{Kind: "store", Name: p.S, Args: []*Term{p, v}, Pos: x.Pos()})
		}
		st.Store(p, v, x.Val.Type())
	default:
		return false
	}
	return true
}

// FieldAddr builds the address of field i of the struct p designates.
func FieldAddr(p *Term, pt types.Type, i int) *Term {
	s := StructType(pt)
	return mk(Term{Op: "faddr", S: s.Field(i).Name(), K: int64(i), Args: []*Term{retype(p, pt)}, T: s.Field(i).Type()})
}

// retype makes sure a symbolic pointer knows its element type.
func retype(p *Term, elem types.Type) *Term {
	switch p.Op {
	case "ref", "faddr", "iaddr", "global":
		return p
	}
	if p.T == nil {
		p.T = types.NewPointer(elem)
	}
	return p
}

func (in *Interp) mapSet(st *State, m, key, v *Term, pos token.Pos) {
	c := st.mapContent(m)
	if m.Op != "mapref" {
		st.event(Event{Kind: "mapset", Args: []*Term{m, key, v}, Pos: pos})
	}
	st.heap[m] = mk(Term{Op: "mupd", Args: []*Term{c, key, v}, T: m.T})
}

func (in *Interp) lenOf(st *State, a *Term, t types.Type) *Term {
	if isMap(t) {
		return Len(st.mapContent(a))
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if arr, ok := p.Elem().Underlying().(*types.Array); ok {
			return Int(arr.Len())
		}
	}
	if arr, ok := t.Underlying().(*types.Array); ok {
		return Int(arr.Len())
	}
	a = st.F.Resolve(a)
	return st.F.Resolve(Len(a))
}

func (in *Interp) slice(fr *frame, x *ssa.Slice, st *State) *Term {
	b := in.val(fr, x.X)
	var lo, hi *Term
	if x.Low != nil {
		lo = in.val(fr, x.Low)
	} else {
		lo = Int(0)
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		// array
		n := p.Elem().Underlying().(*types.Array).Len()
		if x.High != nil {
			hi = in.val(fr, x.High)
		} else {
			hi = Int(n)
		}
		return mk(Term{Op: "slice", Args: []*Term{b, lo, hi}, T: x.Type()})
	}
	if x.High != nil {
		hi = in.val(fr, x.High)
	} else {
		hi = Len(b)
	}
	if in.OnIndex != nil {
		in.OnIndex(st, fr.fn, x.Pos(), b, lo, true)
		if x.High != nil {
			in.OnIndex(st, fr.fn, x.Pos(), b, hi, true)
		}
		if s := st.F.Truth(Le(lo, hi)); s != 1 && x.Low != nil && x.High != nil {
			in.OnIndex(st, fr.fn, x.Pos(), nil, Sub(hi, lo), true)
		}
	}
	return SubSeq(b, lo, hi)
}

func (in *Interp) binop(fr *frame, x *ssa.BinOp, st *State) *Term {
	a, b := in.val(fr, x.X), in.val(fr, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL:
		return eqTyped(st, a, b, t)
	case token.NEQ:
		return Not(eqTyped(st, a, b, t))
	}
	if isIntType(t) {
		switch x.Op {
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			if a.IsInt() {
				return Scale(b, a.K)
			}
			if b.IsInt() {
				return Scale(a, b.K)
			}
			if v, ok := st.F.Exact(a); ok {
				return Scale(b, v)
			}
			if v, ok := st.F.Exact(b); ok {
				return Scale(a, v)
			}
		case token.QUO, token.REM:
			if in.OnDiv != nil {
				in.OnDiv(st, fr.fn, x.Pos(), b)
			}
			if a.IsInt() && b.IsInt() && b.K != 0 {
				if x.Op == token.QUO {
					return Int(a.K / b.K)
				}
				return Int(a.K % b.K)
			}
		case token.SHL:
			b = shiftCount(b)
			if a.IsInt() && b.IsInt() && b.K < 62 {
				return Int(a.K << uint(b.K))
			}
			if b.IsInt() && b.K >= 0 && b.K < 31 {
				return Scale(a, 1<<uint(b.K))
			}
		case token.SHR:
			b = shiftCount(b)
			if a.IsInt() && b.IsInt() && b.K < 63 {
				return Int(a.K >> uint(b.K))
			}
		case token.AND:
			if a.IsInt() && b.IsInt() {
				return Int(a.K & b.K)
			}
		case token.OR:
			if a.IsInt() && b.IsInt() {
				return Int(a.K | b.K)
			}
			if a.IsInt() && a.K == 0 {
				return b
			}
			if b.IsInt() && b.K == 0 || a == b {
				return a
			}
		case token.XOR:
			if a.IsInt() && b.IsInt() {
				return Int(a.K ^ b.K)
			}
		}
		op := x.Op
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 && b.IsInt() && b.K > 0 && b.K&(b.K-1) == 0 {
			// division of an unsigned number by a power of two
			switch op {
			case token.QUO:
				op, b = token.SHR, Int(int64(bits.TrailingZeros64(uint64(b.K))))
			case token.REM:
				op, b = token.AND, Int(b.K-1)
			}
		}
		switch op {
		case token.OR, token.AND, token.XOR, token.MUL:
			if b.id < a.id {
				a, b = b, a
			}
		}
		return App("op"+op.String(), x.Type(), a, b)
	}
	if isStringType(t) {
		switch x.Op {
		case token.ADD:
			return Cat(a, b)
		}
		if a.IsStr() && b.IsStr() {
			switch x.Op {
			case token.LSS:
				return Bool(a.S < b.S)
			case token.LEQ:
				return Bool(a.S <= b.S)
			case token.GTR:
				return Bool(a.S > b.S)
			case token.GEQ:
				return Bool(a.S >= b.S)
			}
		}
	}
	return App("op"+x.Op.String(), x.Type(), a, b)
}

func eqTyped(st *State, a, b *Term, t types.Type) *Term {
	if isIntType(t) {
		return EqInt(a, b)
	}
	a, b = st.F.Resolve(a), st.F.Resolve(b)
	if isStringType(t) {
		// string compared with a window of the input
		if a.Op == "tostr" && a.Args[0].Op == "tobytes" {
			a = a.Args[0].Args[0]
		}
	}
	return Eq(a, b)
}

func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return math.MinInt64, math.MaxInt64, true
	case types.Int32:
		return math.MinInt32, math.MaxInt32, true
	case types.Int16:
		return math.MinInt16, math.MaxInt16, true
	case types.Int8:
		return math.MinInt8, math.MaxInt8, true
	case types.Uint8:
		return 0, math.MaxUint8, true
	case types.Uint16:
		return 0, math.MaxUint16, true
	case types.Uint32:
		return 0, math.MaxUint32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, math.MaxInt64, true
	}
	return
}

func (in *Interp) convert(st *State, v *Term, from, to types.Type) *Term {
	if isIntType(from) && isIntType(to) {
		flo, fhi, _ := intRange(from)
		lo, hi, _ := intRange(to)
		if flo >= lo && fhi <= hi {
			return v
		}
		l, okl := st.F.Lower(v)
		u, oku := st.F.Upper(v)
		if (flo >= lo || okl && l >= lo) && (fhi <= hi || oku && u <= hi) {
			return v
		}
		return mk(Term{Op: "conv", Args: []*Term{v}, T: to})
	}
	if isStringType(to) {
		if isIntType(from) {
			if v.IsInt() {
				return Str(string(rune(v.K)))
			}
			return App("rune2str", to, v)
		}
		if isStringType(from) {
			return v
		}
		if s, ok := from.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				d := st.Deep(v)
				if d.Op == "seq" {
					var sb strings.Builder
					ok := true
					for _, p := range d.Args {
						if p.Op == "el" && p.Args[0].IsInt() {
							sb.WriteByte(byte(p.Args[0].K))
						} else {
							ok = false
						}
					}
					if ok {
						return Str(sb.String())
					}
				}
				if h, ok := st.heap[v]; ok {
					return ToStr(h)
				}
				return ToStr(v)
			}
			if v.IsApp("runes") {
				return App("ext.valid", to, v.Args[0]) // malformed bytes are replaced
			}
			return App("runes2str", to, st.Deep(v))
		}
	}
	if isStringType(from) {
		if s, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				if v.IsStr() {
					return bytesConst(v.S, to)
				}
				return ToBytes(v)
			}
			if v.IsStr() {
				var ps []*Term
				for _, r := range v.S {
					ps = append(ps, El(Int(int64(r))))
				}
				return Seq(to, ps)
			}
			return App("runes", to, v)
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return mk(Term{Op: "conv", Args: []*Term{v}, T: to})
}

func bytesConst(s string, t types.Type) *Term {
	return mk(Term{Op: "tobytes", Args: []*Term{Str(s)}, T: t})
}

func (in *Interp) typeAssert(fr *frame, x *ssa.TypeAssert, st *State, k func(*frame, *State)) {
	v := in.val(fr, x.X)
	if v.Op == "sym" || v.Op == "app" || v.Op == "fld" || v.Op == "index" {
		v = st.F.Resolve(v)
	}
	set := func(fr *frame, val *Term, ok bool) {
		if x.CommaOk {
			fr.env[x] = Tuple(val, Bool(ok))
		} else {
			fr.env[x] = val
		}
	}
	if v.IsNil() {
		if x.CommaOk {
			set(fr, Zero(x.AssertedType), false)
			k(fr, st)
		} else {
			in.emit(&Outcome{Kind: "panic", St: st, Pos: x.Pos(), Fn: fr.fn})
		}
		return
	}
	if types.IsInterface(x.AssertedType) {
		dt := st.F.DynType(v)
		if dt != nil {
			impl := types.Implements(dt, x.AssertedType.Underlying().(*types.Interface))
			if impl {
				set(fr, v, true)
				k(fr, st)
				return
			}
			if x.CommaOk {
				set(fr, Nil(), false)
				k(fr, st)
			} else {
				in.emit(&Outcome{Kind: "panic", St: st, Pos: x.Pos(), Fn: fr.fn})
			}
			return
		}
		if types.Implements(x.X.Type(), x.AssertedType.Underlying().(*types.Interface)) {
			set(fr, v, true)
			k(fr, st)
			return
		}
		// unknown: both
		if x.CommaOk {
			a := App("implements:"+typeKey(x.AssertedType), types.Typ[types.Bool], v)
			st2, fr2 := st.Clone(), fr.clone()
			if st.F.Assume(a, true) {
				set(fr, v, true)
				k(fr, st)
			}
			if st2.F.Assume(a, false) {
				set(fr2, Nil(), false)
				k(fr2, st2)
			}
			return
		}
		set(fr, v, true)
		k(fr, st)
		return
	}
	as := func() *Term {
		if v.Op == "iface" {
			return v.Args[0]
		}
		return mk(Term{Op: "as", Args: []*Term{v}, T: x.AssertedType})
	}
	dt := st.F.DynType(v)
	switch {
	case dt != nil && types.Identical(dt, x.AssertedType):
		set(fr, as(), true)
		k(fr, st)
	case dt != nil || st.F.NotDyn(v, x.AssertedType):
		if x.CommaOk {
			set(fr, Zero(x.AssertedType), false)
			k(fr, st)
		} else {
			in.emit(&Outcome{Kind: "panic", St: st, Pos: x.Pos(), Fn: fr.fn})
		}
	default:
		st2, fr2 := st.Clone(), fr.clone()
		if st.F.AssumeDyn(v, x.AssertedType, true) {
			set(fr, as(), true)
			k(fr, st)
		}
		if st2.F.AssumeDyn(v, x.AssertedType, false) {
			if x.CommaOk {
				set(fr2, Zero(x.AssertedType), false)
				k(fr2, st2)
			} else {
				in.emit(&Outcome{Kind: "panic", St: st2, Pos: x.Pos(), Fn: fr2.fn})
			}
		}
	}
}

// MGet is the value stored under key in a map content.
func mget(c, key *Term, t types.Type) *Term {
	return mk(Term{Op: "app", S: "mget", Args: []*Term{c, key}, T: t})
}

// MHas is the presence atom of key in a map content.
func MHas(c, key *Term) *Term {
	return mk(Term{Op: "app", S: "mhas", Args: []*Term{c, key}, T: types.Typ[types.Bool]})
}

func (in *Interp) lookup(fr *frame, x *ssa.Lookup, st *State, k func(*frame, *State)) {
	m, key := in.val(fr, x.X), in.val(fr, x.Index)
	et := elemType(x.X.Type())
	in.mapLookup(st, st.mapContent(m), key, et, func(st *State, v *Term, has *Term, forked bool) {
		f := fr
		if forked {
			f = fr.clone()
		}
		if x.CommaOk {
			f.env[x] = Tuple(v, has)
		} else {
			f.env[x] = v
		}
		k(f, st)
	})
}

// mapLookup resolves key in content, partitioning on undecided key equality.
func (in *Interp) mapLookup(st *State, c, key *Term, et types.Type, k func(st *State, v, has *Term, forked bool)) {
	forked := false
	for {
		switch c.Op {
		case "mempty":
			k(st, Zero(et), Bool(false), forked)
			return
		case "mupd", "mdel":
			e := Eq(st.F.Resolve(c.Args[1]), st.F.Resolve(key))
			tr := st.F.Truth(e)
			hit := func(s *State, fk bool) {
				if c.Op == "mupd" {
					k(s, c.Args[2], Bool(true), fk)
				} else {
					k(s, Zero(et), Bool(false), fk)
				}
			}
			if tr == 1 {
				hit(st, forked)
				return
			}
			if tr == 0 {
				s2 := st.Clone()
				forked = true
				if s2.F.Assume(e, true) {
					hit(s2, true)
				}
				if !st.F.Assume(e, false) {
					return
				}
			}
			c = c.Args[0]
			continue
		}
		has := MHas(c, key)
		v := mget(c, key, et)
		if isBoolType(et) {
			v = has
		}
		if b, ok := et.Underlying().(*types.Struct); ok && b.NumFields() == 0 {
			v = Struct(et, nil)
		}
		if st.F.Truth(has) == -1 {
			k(st, Zero(et), Bool(false), forked)
			return
		}
		k(st, v, has, forked)
		return
	}
}

// nextConcrete steps an iterator over a statically known collection.
func (in *Interp) nextConcrete(st *State, it *Term, x *ssa.Next) (bool, *Term) {
	c := it.Args[1]
	pos := st.iters[it]
	if x.IsString {
		if !c.IsStr() {
			return false, nil
		}
		j := 0
		for off, r := range c.S {
			if j == pos {
				st.iters[it] = pos + 1
				return true, Tuple(Bool(true), Int(int64(off)), Int(int64(r)))
			}
			j++
		}
		return true, Tuple(Bool(false), Int(0), Int(0))
	}
	var ks, vs []*Term
	for c.Op == "mupd" {
		dup := false
		for _, k := range ks {
			switch st.F.Truth(Eq(k, c.Args[1])) {
			case 1:
				dup = true
			case 0:
				return false, nil
			}
		}
		if !dup {
			ks = append(ks, c.Args[1])
			vs = append(vs, c.Args[2])
		}
		c = c.Args[0]
	}
	if c.Op != "mempty" {
		return false, nil
	}
	n := len(ks)
	if pos < n {
		st.iters[it] = pos + 1
		return true, Tuple(Bool(true), ks[n-1-pos], vs[n-1-pos])
	}
	return true, Tuple(Bool(false), Zero(x.Type().(*types.Tuple).At(1).Type()), Zero(x.Type().(*types.Tuple).At(2).Type()))
}

func (in *Interp) next(fr *frame, x *ssa.Next, st *State, k func(*frame, *State)) {
	it := in.val(fr, x.Iter)
	if it.Op == "iter" {
		if d, res := in.nextConcrete(st, it, x); d {
			fr.env[x] = res
			k(fr, st)
			return
		}
	}
	if in.Peel > 0 && it.Op == "iter" {
		in.nextPeeled(fr, x, it, st, k)
		return
	}
	c := it
	if it.Op == "iter" {
		c = it.Args[1]
	}
	tt := x.Type().(*types.Tuple)
	if fr.exitOnly == x.Block() {
		fr.env[x] = Tuple(Bool(false), Zero(tt.At(1).Type()), Zero(tt.At(2).Type()))
		k(fr, st)
		return
	}
	st2, fr2 := st.Clone(), fr.clone()
	ord := st.nloop
	more := App("more", types.Typ[types.Bool], Int(int64(ord)), c)
	if !st.F.Assume(more, true) {
		st = nil
	}
	if !st2.F.Assume(more, false) {
		st2 = nil
	}
	if x.IsString {
		off := Sym(fmt.Sprintf("off#%d", ord), types.Typ[types.Int])
		if st != nil {
			st.F.Assume(Le(Int(0), off), true)
			if st.F.Assume(Lt(off, Len(c)), true) {
				fr.env[x] = Tuple(Bool(true), off, App("dec.rune", types.Typ[types.Int32], c, off))
				k(fr, st)
			}
		}
		if st2 != nil {
			fr2.env[x] = Tuple(Bool(false), Int(0), Int(0))
			k(fr2, st2)
		}
		return
	}
	var mt *types.Map
	if it.T != nil {
		mt, _ = it.T.Underlying().(*types.Map)
	}
	if mt == nil {
		in.undecided("range over unknown in %s", fr.fn)
		return
	}
	_ = tt
	key := Sym(fmt.Sprintf("key#%d", ord), mt.Key())
	// The element may come from any pending update.
	base := c
	for base.Op == "mupd" || base.Op == "mdel" {
		base = base.Args[0]
	}
	if st != nil && (base.Op != "mempty" || c.Op == "mupd") {
		if c == base {
			has := MHas(c, key)
			if st.F.Assume(has, true) {
				v := mget(c, key, mt.Elem())
				if isBoolType(mt.Elem()) {
					v = has
				}
				fr.env[x] = Tuple(Bool(true), key, v)
				k(fr, st)
			}
		} else {
			in.mapLookup(st, c, key, mt.Elem(), func(s *State, v, has *Term, fk bool) {
				if !s.F.Assume(has, true) {
					return
				}
				f := fr.clone()
				f.env[x] = Tuple(Bool(true), key, v)
				k(f, s)
			})
		}
	}
	if st2 != nil {
		fr2.env[x] = Tuple(Bool(false), Zero(mt.Key()), Zero(mt.Elem()))
		k(fr2, st2)
	}
}

// MapKey names the i-th key of a map met when ranging over it.
func mapKey(c *Term, i int, t types.Type) *Term {
	return mk(Term{Op: "app", S: "mkey", Args: []*Term{c, Int(int64(i))}, T: t})
}

// nextPeeled steps an iterator whose iterations are looked at one by one: the
// keys of a map are distinct and there are as many of them as its length says.
func (in *Interp) nextPeeled(fr *frame, x *ssa.Next, it *Term, st *State, k func(*frame, *State)) {
	c := it.Args[1]
	i := st.iters[it]
	tt := x.Type().(*types.Tuple)
	if x.IsString {
		off := Int(0)
		for j := 0; j < i; j++ {
			off = Add(off, App("dec.size", types.Typ[types.Int], c, off))
		}
		st2, fr2 := st.Clone(), fr.clone()
		if st.F.Assume(Lt(off, Len(c)), true) {
			st.iters[it] = i + 1
			fr.env[x] = Tuple(Bool(true), off, App("dec.rune", types.Typ[types.Int32], c, off))
			k(fr, st)
		}
		if st2.F.Assume(Lt(off, Len(c)), false) {
			fr2.env[x] = Tuple(Bool(false), Int(0), Int(0))
			k(fr2, st2)
		}
		return
	}
	mt, _ := it.T.Underlying().(*types.Map)
	if mt == nil {
		in.undecided("range over unknown in %s", fr.fn)
		return
	}
	// A map built on the way: decide which of its keys coincide.
	base := c
	var ks []*Term
	for base.Op == "mupd" {
		ks = append(ks, base.Args[1])
		base = base.Args[0]
	}
	if base.Op == "mempty" && len(ks) <= 4 {
		for a := range ks {
			for b := a + 1; b < len(ks); b++ {
				e := Eq(st.F.Resolve(ks[a]), st.F.Resolve(ks[b]))
				if st.F.Truth(e) != 0 {
					continue
				}
				st2, fr2 := st.Clone(), fr.clone()
				if st.F.Assume(e, true) {
					in.next(fr, x, st, k)
				}
				if st2.F.Assume(e, false) {
					in.next(fr2, x, st2, k)
				}
				return
			}
		}
	}
	more := Lt(Int(int64(i)), Len(c))
	st2, fr2 := st.Clone(), fr.clone()
	if st.F.Assume(more, true) {
		key := mapKey(c, i, mt.Key())
		ok := true
		for j := 0; j < i && ok; j++ {
			ok = st.F.Assume(Eq(mapKey(c, j, mt.Key()), key), false)
		}
		if ok {
			st.iters[it] = i + 1
			in.mapLookup(st, c, key, mt.Elem(), func(s *State, v, has *Term, fk bool) {
				if !s.F.Assume(has, true) {
					return
				}
				f := fr.clone()
				if isBoolType(mt.Elem()) && v == has {
					v = Bool(true)
				}
				f.env[x] = Tuple(Bool(true), key, v)
				k(f, s)
			})
		}
	}
	if st2.F.Assume(more, false) {
		fr2.env[x] = Tuple(Bool(false), Zero(tt.At(1).Type()), Zero(tt.At(2).Type()))
		k(fr2, st2)
	}
}

// shiftCount drops the conversion of a shift count to an unsigned type: a
// count is never negative.
func shiftCount(b *Term) *Term {
	for b.Op == "conv" && len(b.Args) == 1 && intLike(b.Args[0]) && isIntType(b.T) {
		b = b.Args[0]
	}
	return b
}

func sliceTyped(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
