package ai

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Event is an observable step of an abstract trace.
type Event struct {
	Kind string // call, store, mapset, mapdel, loop, panic
	Name string // callee name, field name
	Fn   *ssa.Function
	Args []*Term
	Res  *Term
	Pos  token.Pos
	Loop *Loop
	Snap map[*Term]*Term // memory a callee may look at, written before the call
}

func (e Event) String() string {
	s := e.Kind + " " + e.Name + "("
	for i, a := range e.Args {
		if i > 0 {
			s += ", "
		}
		s += a.String()
	}
	return s + ")"
}

// Loop describes a widened loop.
type Loop struct {
	Ord    int
	Header *ssa.BasicBlock
	N      *Term // iteration number (>= 0)
	Phis   []LoopVar
	Heap   []LoopHeap
	Pos    token.Pos
}

// LoopVar is a loop-carried register.
type LoopVar struct {
	Phi  *ssa.Phi
	Sym  *Term // value at the header of an arbitrary iteration
	Init *Term
	Lin  bool // Sym == Init + c*N
}

// LoopHeap is a memory location modified by the loop.
type LoopHeap struct {
	Root  *Term
	Field int // -1: the whole content
	Sym   *Term
	Init  *Term
}

// State is an abstract state on one trace partition.
type State struct {
	F      *Facts
	heap   map[*Term]*Term
	types  map[*Term]types.Type // content type of heap roots
	Trace  []Event
	Loops  []*Loop
	nloop  int
	havocs []havoc
	iters  map[*Term]int
	nalloc map[string]int
	ticks  int
	turns  int            // iterations looked at one by one so far
	conf   map[*Term]bool // maps no callee can reach
}

func (s *State) fresh(kind string) string {
	s.nalloc[kind]++
	return fmt.Sprintf("%s#%d", kind, s.nalloc[kind])
}

func (s *State) tick() int { s.ticks++; return s.ticks }

type havoc struct {
	mods  *ModSet
	epoch int
}

func NewState() *State {
	return &State{F: NewFacts(), heap: map[*Term]*Term{}, types: map[*Term]types.Type{}, iters: map[*Term]int{}, nalloc: map[string]int{}}
}

func (s *State) Clone() *State {
	n := &State{F: s.F.Clone(), heap: make(map[*Term]*Term, len(s.heap)), types: s.types, nloop: s.nloop}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.types = make(map[*Term]types.Type, len(s.types))
	for k, v := range s.types {
		n.types[k] = v
	}
	n.iters = make(map[*Term]int, len(s.iters))
	for k, v := range s.iters {
		n.iters[k] = v
	}
	n.ticks, n.turns = s.ticks, s.turns
	if len(s.conf) > 0 {
		n.conf = make(map[*Term]bool, len(s.conf))
		for k := range s.conf {
			n.conf[k] = true
		}
	}
	n.nalloc = make(map[string]int, len(s.nalloc))
	for k, v := range s.nalloc {
		n.nalloc[k] = v
	}
	n.Trace = s.Trace[:len(s.Trace):len(s.Trace)]
	n.Loops = s.Loops[:len(s.Loops):len(s.Loops)]
	n.havocs = s.havocs[:len(s.havocs):len(s.havocs)]
	return n
}

func (s *State) event(e Event) { s.Trace = append(s.Trace, e) }

// content of the object a root pointer designates.
func (s *State) content(p *Term, t types.Type) *Term {
	if v, ok := s.heap[p]; ok {
		return v
	}
	v := mk(Term{Op: "deref", Args: []*Term{p}, T: t})
	return s.applyHavocs(p, v, t)
}

func (s *State) applyHavocs(p, v *Term, t types.Type) *Term {
	st := StructType(t)
	if st == nil {
		return v
	}
	for _, h := range s.havocs {
		v = havocStruct(v, p, t, st, h)
	}
	return v
}

func havocStruct(v, p *Term, t types.Type, st *types.Struct, h havoc) *Term {
	tn := typeKey(t)
	for i := 0; i < st.NumFields(); i++ {
		if h.mods.Fields[tn+"."+st.Field(i).Name()] {
			as := []*Term{p}
			if p.Op == "ref" {
				// what a local object held stays part of what it may hold now
				as = append(as, Field(v, i, nil))
			}
			sym := App(fmt.Sprintf("after%d.%s", h.epoch, st.Field(i).Name()), st.Field(i).Type(), as...)
			v = WithField(v, t, i, sym)
		}
	}
	return v
}

// mapContent returns the content of a map reference.
func (s *State) mapContent(m *Term) *Term {
	if m.IsNil() {
		return mk(Term{Op: "mempty"})
	}
	if v, ok := s.heap[m]; ok {
		return v
	}
	if m.Op == "mempty" {
		return m
	}
	return mk(Term{Op: "m0", Args: []*Term{m}, T: m.T})
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Byte]
		}
	}
	return nil
}

// Zero is the zero value of a type.
func Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsFloat != 0:
			return mk(Term{Op: "float", S: "0"})
		}
		return Nil()
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = Zero(u.Field(i).Type())
		}
		return Struct(t, fs)
	case *types.Array:
		if u.Len() <= 4096 {
			as := make([]*Term, u.Len())
			z := Zero(u.Elem())
			for i := range as {
				as[i] = z
			}
			return mk(Term{Op: "arr", Args: as, T: t})
		}
		return mk(Term{Op: "zeroarr", T: t})
	case *types.Tuple:
		as := make([]*Term, u.Len())
		for i := range as {
			as[i] = Zero(u.At(i).Type())
		}
		return Tuple(as...)
	}
	return Nil()
}

// Load reads through a pointer term.
func (s *State) Load(p *Term, t types.Type) *Term {
	switch p.Op {
	case "faddr":
		base := s.Load(p.Args[0], p.Args[0].elem())
		return Field(base, int(p.K), t)
	case "iaddr":
		return s.Index(s.iaddrArr(p.Args[0]), s.iaddrIdx(p), t)
	}
	return s.content(p, t)
}

func (t *Term) elem() types.Type {
	switch t.Op {
	case "faddr", "iaddr", "ref", "global":
		return t.T
	}
	return elemType(t.T)
}

// iaddrArr gives the array value an iaddr base denotes.
func (s *State) iaddrArr(b *Term) *Term {
	if b.Op == "slice" {
		return s.Load(b.Args[0], b.Args[0].elem())
	}
	if isSliceLike(b) {
		if v, ok := s.heap[b]; ok {
			return v
		}
		return b
	}
	return s.Load(b, b.elem())
}

func (s *State) iaddrIdx(p *Term) *Term {
	b := p.Args[0]
	if b.Op == "slice" {
		return Add(b.Args[1], p.Args[1])
	}
	return p.Args[1]
}

func isSliceLike(b *Term) bool {
	if b.Op == "seq" || b.Op == "sub" || b.Op == "tobytes" || b.Op == "nil" {
		return true
	}
	if b.T == nil {
		return false
	}
	switch b.Op {
	case "ref", "faddr", "iaddr", "global":
		return false
	}
	_, ok := b.T.Underlying().(*types.Slice)
	return ok
}

// Index reads element k of a sequence value.
func (s *State) Index(seq, k *Term, t types.Type) *Term {
	if !k.IsInt() {
		if v, ok := s.F.Exact(k); ok {
			k = Int(v)
		}
	}
	seq = copied(seq)
	switch seq.Op {
	case "str":
		if k.IsInt() && k.K >= 0 && k.K < int64(len(seq.S)) {
			return Int(int64(seq.S[k.K]))
		}
	case "arr":
		if k.IsInt() && k.K >= 0 && k.K < int64(len(seq.Args)) {
			return seq.Args[k.K]
		}
	case "seq":
		if k.IsInt() {
			i := k.K
			for _, p := range seq.Args {
				if p.Op != "el" {
					if i >= 0 {
						// may fall into the spread part
						if n, ok := s.F.Exact(Len(p.Args[0])); ok {
							if i < n {
								return s.Index(p.Args[0], Int(i), t)
							}
							i -= n
							continue
						}
					}
					break
				}
				if i == 0 {
					return p.Args[0]
				}
				i--
			}
		}
		// index = len(spread)+c
		off := k
		for _, p := range seq.Args {
			if p.Op == "el" {
				if d, ok := s.F.Exact(off); ok && d == 0 {
					return p.Args[0]
				}
				off = Sub(off, Int(1))
				continue
			}
			if s.F.Truth(Lt(off, Len(p.Args[0]))) == 1 && (off == k || s.F.Truth(Le(Int(0), off)) == 1) {
				return s.Index(p.Args[0], off, t)
			}
			if s.F.Truth(Le(Len(p.Args[0]), off)) == 1 {
				off = Sub(off, Len(p.Args[0]))
				continue
			}
			break
		}
	case "zeroarr":
		if t != nil {
			return Zero(t)
		}
	case "aupd":
		switch s.F.Truth(EqInt(seq.Args[1], k)) {
		case 1:
			return seq.Args[2]
		case -1:
			return s.Index(seq.Args[0], k, t)
		}
	case "slice":
		return s.Index(s.Load(seq.Args[0], seq.Args[0].elem()), Add(seq.Args[1], k), t)
	case "sub":
		return s.Index(seq.Args[0], Add(seq.Args[1], k), t)
	case "tostr", "tobytes":
		return s.Index(seq.Args[0], k, t)
	}
	if t == nil {
		t = elemType(seq.T)
	}
	return mk(Term{Op: "index", Args: []*Term{seq, k}, T: t})
}

// elements lists arr[lo:hi] of a freshly made array whose elements were
// written one by one.
func (s *State) elements(arr, lo, hi *Term) ([]*Term, bool) {
	l, ok1 := s.F.Exact(lo)
	h, ok2 := s.F.Exact(hi)
	if !ok1 || !ok2 || l < 0 || h < l || h-l > 8 {
		return nil, false
	}
	for x := arr; x.Op != "zeroarr"; x = x.Args[0] {
		if x.Op != "aupd" {
			return nil, false
		}
	}
	var out []*Term
	for i := l; i < h; i++ {
		v := s.Index(arr, Int(i), elemType(arr.T))
		if v.Op == "index" && v.Args[0] == arr {
			return nil, false
		}
		out = append(out, v)
	}
	return out, true
}

func (s *State) arrUpdate(a, k, v *Term) *Term {
	if !k.IsInt() {
		if x, ok := s.F.Exact(k); ok {
			k = Int(x)
		}
	}
	if a.Op == "arr" && k.IsInt() && k.K >= 0 && k.K < int64(len(a.Args)) {
		as := append([]*Term(nil), a.Args...)
		as[k.K] = v
		return mk(Term{Op: "arr", Args: as, T: a.T})
	}
	if v.Op == "index" && v.Args[0] == a && v.Args[1] == k {
		return a // writes what is there
	}
	u := mk(Term{Op: "aupd", Args: []*Term{a, k, v}, T: a.T})
	if at, ok := a.T.(*types.Array); ok || a.T != nil {
		if !ok {
			at, ok = a.T.Underlying().(*types.Array)
		}
		if ok && at.Len() > 0 && at.Len() <= 16 {
			// every element written one by one
			as := make([]*Term, at.Len())
			n := 0
			for x := u; x.Op == "aupd" && x.Args[1].IsInt(); x = x.Args[0] {
				if i := x.Args[1].K; i >= 0 && i < at.Len() && as[i] == nil {
					as[i] = x.Args[2]
					n++
				}
			}
			if n == len(as) {
				return mk(Term{Op: "arr", Args: as, T: a.T})
			}
		}
	}
	return u
}

// Store writes through a pointer term; t is the type of the stored value.
func (s *State) Store(p, v *Term, t types.Type) {
	switch p.Op {
	case "faddr":
		bp := p.Args[0]
		bt := bp.elem()
		s.Store(bp, WithField(s.Load(bp, bt), bt, int(p.K), v), bt)
		return
	case "iaddr":
		b := p.Args[0]
		if b.Op == "slice" {
			arr := b.Args[0]
			s.Store(arr, s.arrUpdate(s.Load(arr, arr.elem()), s.iaddrIdx(p), v), arr.elem())
			return
		}
		if isSliceLike(b) {
			s.heap[b] = s.arrUpdate(s.iaddrArr(b), p.Args[1], v)
			return
		}
		s.Store(b, s.arrUpdate(s.Load(b, b.elem()), p.Args[1], v), b.elem())
		return
	}
	s.heap[p] = v
	s.types[p] = t
}

// Root strips field and index addressing.
func Root(p *Term) *Term {
	for {
		switch p.Op {
		case "faddr":
			p = p.Args[0]
		case "iaddr":
			b := p.Args[0]
			if b.Op == "slice" {
				p = b.Args[0]
			} else {
				return b
			}
		default:
			return p
		}
	}
}

// Deep replaces references to locally allocated objects by their content, for
// reporting and comparison.
func (s *State) Deep(t *Term) *Term { return s.deep(t, 0, map[*Term]bool{}) }

func (s *State) deep(t *Term, d int, on map[*Term]bool) *Term {
	if d > 100 || t == nil || on[t] {
		return t
	}
	switch t.Op {
	case "slice":
		arr := s.Load(t.Args[0], t.Args[0].elem())
		lo, hi := t.Args[1], t.Args[2]
		if arr.Op == "arr" && lo.IsInt() && hi.IsInt() && lo.K >= 0 && hi.K <= int64(len(arr.Args)) && lo.K <= hi.K {
			var parts []*Term
			for _, a := range arr.Args[lo.K:hi.K] {
				parts = append(parts, El(s.deep(a, d+1, on)))
			}
			return Seq(t.T, parts)
		}
		if arr.Op == "zeroarr" && lo == hi {
			return Seq(t.T, nil)
		}
		if parts, ok := s.elements(arr, lo, hi); ok {
			for i := range parts {
				parts[i] = El(s.deep(parts[i], d+1, on))
			}
			return Seq(t.T, parts)
		}
		if c := s.deep(arr, d+1, on); c != t.Args[0] && s.owned(t.Args[0]) {
			if c.Op == "seq" && lo.IsInt() && lo.K == 0 && hi == Len(c) {
				return CopyOf(t.T, c.Args)
			}
			return mk(Term{Op: "slicev", Args: []*Term{c, lo, hi}, T: t.T})
		}
		return t
	case "ref":
		if c, ok := s.heap[t]; ok {
			on[t] = true
			r := mk(Term{Op: "ptrto", Args: []*Term{s.deep(c, d+1, on)}, T: t.T})
			delete(on, t)
			return r
		}
		return t
	case "faddr", "iaddr":
		if s.owned(t) {
			as := append([]*Term(nil), t.Args...)
			as[0] = s.deep(t.Args[0], d+1, on)
			if as[0] != t.Args[0] {
				if in := as[0]; t.Op == "faddr" && in.Op == "ptrto" && in.Args[0].Op == "struct" && int(t.K) < len(in.Args[0].Args) {
					return mk(Term{Op: "ptrto", Args: []*Term{in.Args[0].Args[t.K]}, T: t.T})
				}
				n := *t
				n.Op = "in" + t.Op
				n.Args = as
				return mk(n)
			}
		}
		return t
	case "mapref":
		if c, ok := s.heap[t]; ok {
			on[t] = true
			r := mk(Term{Op: "mapval", Args: []*Term{s.deep(c, d+1, on)}, T: t.T})
			delete(on, t)
			return r
		}
		return t
	case "struct", "seq", "el", "spread", "iface", "tuple", "arr", "mupd", "mdel", "aupd", "app", "cat", "fld", "index", "len", "sub":
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = s.deep(a, d+1, on)
			if as[i] != a {
				ch = true
			}
		}
		if !ch {
			return t
		}
		if t.Op == "struct" {
			return Struct(t.T, as)
		}
		if t.Op == "seq" {
			if isCopy(t.Args) {
				return CopyOf(t.T, flatParts(as))
			}
			return Seq(t.T, flatParts(as))
		}
		n := *t
		n.Args = as
		return mk(n)
	}
	return t
}

// owned reports whether an address lies in an object allocated on this path.
func (s *State) owned(p *Term) bool {
	for {
		switch p.Op {
		case "ref":
			_, ok := s.heap[p]
			return ok
		case "faddr", "iaddr":
			p = p.Args[0]
		default:
			return false
		}
	}
}

func flatParts(ps []*Term) []*Term {
	var out []*Term
	for _, p := range ps {
		if p.Op == "spread" {
			out = append(out, seqParts(p.Args[0])...)
		} else {
			out = append(out, p)
		}
	}
	return out
}

// SeqOf returns the parts of a slice value (deep), as normalised sequence.
func (s *State) SeqOf(t *Term) []*Term {
	t = s.Deep(t)
	return seqParts(t)
}

// FieldOf loads a named field of the object a pointer designates.
func (s *State) FieldOf(p *Term, name string) *Term {
	et := p.elem()
	v := s.Load(p, et)
	if v.T == nil {
		v.T = et
	}
	return FieldByName(v, name)
}
