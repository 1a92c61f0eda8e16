package ai

import (
	"go/types"
	"math"
)

// Facts is the relational part of an abstract state: a zone (difference-bound)
// domain over integer terms, plus the truth of boolean atoms and the dynamic
// types of interface terms.
type Facts struct {
	idx   map[*Term]int // zone variable -> row; row 0 is the constant zero
	vars  []*Term
	d     [][]int64 // d[i][j]: v_i - v_j <= d[i][j]
	neq   []*Term   // linear terms known to be != 0
	atoms map[*Term]bool
	bind  map[*Term]*Term // non-integer term == constant/other term
	dyn   map[*Term]types.Type
	ndyn  map[*Term][]types.Type
	lits  map[*Term]bool
	nlits int
	order []Lit // chronological record for reports
	tag   bool  // the assumption being made is a loop's exit test
	bad   bool
}

// Lit is a recorded assumption.
type Lit struct {
	T    *Term
	Pos  bool
	Exit bool // the exit test of a loop: every terminating run meets it
}

// FieldRange gives the invariant interval of named struct fields.
var FieldRange = map[string][2]int64{}

// SymRange gives the interval of parameters of the function under comparison.
var SymRange map[*Term][2]int64

// Inf is the open end of a FieldRange interval.
const Inf = infty

const infty = math.MaxInt64 / 4

func NewFacts() *Facts {
	return &Facts{
		idx: map[*Term]int{}, vars: []*Term{nil}, d: [][]int64{{0}},
		atoms: map[*Term]bool{}, bind: map[*Term]*Term{},
		dyn: map[*Term]types.Type{}, ndyn: map[*Term][]types.Type{},
	}
}

func (f *Facts) Clone() *Facts {
	n := &Facts{
		idx: make(map[*Term]int, len(f.idx)), vars: append([]*Term(nil), f.vars...),
		d: make([][]int64, len(f.d)), neq: append([]*Term(nil), f.neq...),
		atoms: make(map[*Term]bool, len(f.atoms)), bind: make(map[*Term]*Term, len(f.bind)),
		dyn: make(map[*Term]types.Type, len(f.dyn)), ndyn: make(map[*Term][]types.Type, len(f.ndyn)),
		order: append([]Lit(nil), f.order...), bad: f.bad,
	}
	for k, v := range f.idx {
		n.idx[k] = v
	}
	for i := range f.d {
		n.d[i] = append([]int64(nil), f.d[i]...)
	}
	for k, v := range f.atoms {
		n.atoms[k] = v
	}
	for k, v := range f.bind {
		n.bind[k] = v
	}
	for k, v := range f.dyn {
		n.dyn[k] = v
	}
	for k, v := range f.ndyn {
		n.ndyn[k] = v
	}
	return n
}

// Lits returns the assumptions made, in order.
func (f *Facts) Lits() []Lit { return f.order }

func (f *Facts) row(v *Term) int {
	if i, ok := f.idx[v]; ok {
		return i
	}
	i := len(f.vars)
	f.idx[v] = i
	f.vars = append(f.vars, v)
	for r := range f.d {
		f.d[r] = append(f.d[r], infty)
	}
	nr := make([]int64, i+1)
	for j := range nr {
		nr[j] = infty
	}
	nr[i] = 0
	f.d = append(f.d, nr)
	lo, hi, okl, okh := intrinsicRange(v)
	if okl {
		f.edge(0, i, -lo)
	}
	if okh {
		f.edge(i, 0, hi)
	}
	return i
}

// intrinsicRange gives the range a term has by construction.
func intrinsicRange(v *Term) (lo, hi int64, okl, okh bool) {
	if v.Op == "len" && v.Args[0].Op != "mupd" {
		return 0, 0, true, false
	}
	if r, ok := SymRange[v]; ok {
		return r[0], r[1], r[0] > -infty, r[1] < infty
	}
	if v.Op == "app" {
		switch v.S {
		case "dec.size":
			return 0, 4, true, true
		case "dec.rune":
			return 0, 0x10FFFF, true, true
		case "runelen":
			return 1, 4, true, true
		case "iter", "count":
			return 0, 0, true, false
		}
	}
	if v.Op == "sym" && len(v.S) > 2 && v.S[:2] == "n#" {
		return 0, 0, true, false
	}
	if v.Op == "len" && v.Args[0].Op == "mupd" {
		return 1, 0, true, false
	}
	if v.Op == "fld" && v.Args[0].T != nil {
		if n, ok := v.Args[0].T.(*types.Named); ok {
			if r, ok := FieldRange[n.Obj().Name()+"."+v.S]; ok {
				return r[0], r[1], r[0] > -infty, r[1] < infty
			}
		}
	}
	if v.T != nil && v.Op != "lin" {
		if b, ok := v.T.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				return 0, 255, true, true
			case types.Uint16:
				return 0, 65535, true, true
			case types.Uint32:
				return 0, math.MaxUint32, true, true
			case types.Uint, types.Uint64, types.Uintptr:
				return 0, 0, true, false
			case types.Int8:
				return -128, 127, true, true
			case types.Int16:
				return -32768, 32767, true, true
			case types.Int32:
				return math.MinInt32, math.MaxInt32, true, true
			}
		}
	}
	return 0, 0, false, false
}

// edge adds v_i - v_j <= c and closes incrementally.
func (f *Facts) edge(i, j int, c int64) {
	if c >= f.d[i][j] {
		return
	}
	n := len(f.vars)
	for a := 0; a < n; a++ {
		if f.d[a][i] >= infty {
			continue
		}
		for b := 0; b < n; b++ {
			if f.d[j][b] >= infty {
				continue
			}
			w := f.d[a][i] + c + f.d[j][b]
			if w < f.d[a][b] {
				f.d[a][b] = w
			}
		}
	}
	for a := 0; a < n; a++ {
		if f.d[a][a] < 0 {
			f.bad = true
		}
	}
}

// split normalises a linear term into zone form: vi - vj + k, with vi/vj zone
// variables (possibly composite); ok is false for constants.
func (f *Facts) split(e *Term) (i, j int, k int64) {
	m, k := linOf(e)
	var pos, neg []*Term
	simple := true
	for v, c := range m {
		switch c {
		case 1:
			pos = append(pos, v)
		case -1:
			neg = append(neg, v)
		default:
			simple = false
		}
	}
	if simple && len(pos) <= 1 && len(neg) <= 1 {
		i, j = 0, 0
		if len(pos) == 1 {
			i = f.row(pos[0])
		}
		if len(neg) == 1 {
			j = f.row(neg[0])
		}
		return i, j, k
	}
	// composite variable, sign-normalised
	c := mkLin(m, 0)
	var first *Term
	for v := range m {
		if first == nil || v.id < first.id {
			first = v
		}
	}
	if m[first] < 0 {
		for v := range m {
			m[v] = -m[v]
		}
		c = mkLin(m, 0)
		return 0, f.compRow(c), k
	}
	return f.compRow(c), 0, k
}

func (f *Facts) compRow(c *Term) int {
	if i, ok := f.idx[c]; ok {
		return i
	}
	i := f.row(c)
	lo, okl := f.sumBound(c, false)
	hi, okh := f.sumBound(c, true)
	if okl {
		f.edge(0, i, -lo)
	}
	if okh {
		f.edge(i, 0, hi)
	}
	return i
}

// sumBound bounds a linear term by the intervals of its variables.
func (f *Facts) sumBound(e *Term, upper bool) (int64, bool) {
	m, k := linOf(e)
	tot := k
	for v, c := range m {
		r := f.row(v)
		var b int64
		if (c > 0) == upper {
			if f.d[r][0] >= infty {
				return 0, false
			}
			b = f.d[r][0]
		} else {
			if f.d[0][r] >= infty {
				return 0, false
			}
			b = -f.d[0][r]
		}
		tot += c * b
	}
	return tot, true
}

// Upper returns the least known upper bound of e.
func (f *Facts) Upper(e *Term) (int64, bool) {
	if e.IsInt() {
		return e.K, true
	}
	i, j, k := f.split(e)
	b := int64(infty)
	if f.d[i][j] < infty {
		b = f.d[i][j] + k
	}
	if s, ok := f.sumBound(e, true); ok && s < b {
		b = s
	}
	if b2, ok := f.pairBound(e); ok && b2 < b {
		b = b2
	}
	return b, b < infty
}

// pairBound bounds a sum a-b+c-d… by pairing positives with negatives using
// zone differences (a cheap polyhedral approximation).
func (f *Facts) pairBound(e *Term) (int64, bool) {
	m, k := linOf(e)
	if len(m) < 2 || len(m) > 5 {
		return 0, false
	}
	var pos, neg []*Term
	for v, c := range m {
		for ; c > 0 && c < 4; c-- {
			pos = append(pos, v)
		}
		for ; c < 0 && c > -4; c++ {
			neg = append(neg, v)
		}
	}
	if len(pos) > 4 || len(neg) > 4 {
		return 0, false
	}
	best := int64(infty)
	used := make([]bool, len(neg))
	var rec func(i int, acc int64)
	rec = func(i int, acc int64) {
		if acc >= infty/2 {
			return
		}
		if i == len(pos) {
			for j, u := range used {
				if !u {
					r := f.row(neg[j])
					if f.d[0][r] >= infty {
						return
					}
					acc += f.d[0][r]
				}
			}
			if acc < best {
				best = acc
			}
			return
		}
		r := f.row(pos[i])
		if f.d[r][0] < infty {
			rec(i+1, acc+f.d[r][0])
		}
		for j := range neg {
			if used[j] {
				continue
			}
			q := f.row(neg[j])
			if f.d[r][q] < infty {
				used[j] = true
				rec(i+1, acc+f.d[r][q])
				used[j] = false
			}
		}
	}
	rec(0, k)
	return best, best < infty
}

// Lower returns the greatest known lower bound of e.
func (f *Facts) Lower(e *Term) (int64, bool) {
	u, ok := f.Upper(Scale(e, -1))
	return -u, ok
}

// Exact returns the constant value of e when known.
func (f *Facts) Exact(e *Term) (int64, bool) {
	if e.IsInt() {
		return e.K, true
	}
	u, ok := f.Upper(e)
	if !ok {
		return 0, false
	}
	l, ok := f.Lower(e)
	if ok && l == u {
		return u, true
	}
	return 0, false
}

// Truth evaluates a boolean term: 1 true, -1 false, 0 unknown.
func (f *Facts) Truth(t *Term) int {
	switch t.Op {
	case "bool":
		if t.K == 1 {
			return 1
		}
		return -1
	case "not":
		return -f.Truth(t.Args[0])
	case "le0":
		if u, ok := f.Upper(t.Args[0]); ok && u <= 0 {
			return 1
		}
		if l, ok := f.Lower(t.Args[0]); ok && l > 0 {
			return -1
		}
		return 0
	case "eq0":
		e := t.Args[0]
		u, ok1 := f.Upper(e)
		l, ok2 := f.Lower(e)
		if ok1 && ok2 && u == 0 && l == 0 {
			return 1
		}
		if ok1 && u < 0 || ok2 && l > 0 {
			return -1
		}
		for _, n := range f.neq {
			if n == e || n == Scale(e, -1) {
				return -1
			}
			df := Sub(n, e)
			if x, ok := f.Exact(df); ok && x == 0 {
				return -1
			}
			df = Add(n, e)
			if x, ok := f.Exact(df); ok && x == 0 {
				return -1
			}
		}
		return 0
	}
	if v, ok := f.atoms[t]; ok {
		if v {
			return 1
		}
		return -1
	}
	if t.Op == "eq" {
		a, b := f.Resolve(t.Args[0]), f.Resolve(t.Args[1])
		if a != t.Args[0] || b != t.Args[1] {
			r := Eq(a, b)
			if r != t {
				return f.Truth(r)
			}
		}
		// distinct lengths
		if isStringType(a.T) || a.IsStr() || isStringType(b.T) || b.IsStr() {
			r := f.Truth(EqInt(Len(a), Len(b)))
			if r == -1 {
				return -1
			}
			if e := f.elementwise(a, b); e != 0 && (e < 0 || r > 0) {
				return e
			}
		}
	}
	if t.Op == "and" {
		r := 1
		for _, a := range t.Args {
			x := f.Truth(a)
			if x == -1 {
				return -1
			}
			if x == 0 {
				r = 0
			}
		}
		return r
	}
	return 0
}

// elementwise compares two strings known by their bytes: -1 when one byte is
// known to differ, 1 when all of them are known to be equal.
func (f *Facts) elementwise(a, b *Term) int {
	if a.Op != "tostr" || b.Op != "tostr" {
		return 0
	}
	x, y := a.Args[0], b.Args[0]
	at := func(s *Term, k *Term) *Term {
		for s.Op == "sub" {
			k = Add(k, s.Args[1])
			s = s.Args[0]
		}
		return mk(Term{Op: "index", Args: []*Term{s, k}, T: elemType(s.T)})
	}
	n, ok := f.Exact(Len(x))
	if !ok || n > 4 {
		// enough to look at the first bytes for a difference
		if l, ok := f.Lower(Len(x)); ok && l > 0 && l <= 4 {
			n = l
		} else {
			return 0
		}
	}
	all := 1
	for i := int64(0); i < n; i++ {
		switch f.Truth(EqInt(at(x, Int(i)), at(y, Int(i)))) {
		case -1:
			return -1
		case 0:
			all = 0
		}
	}
	if m, ok := f.Exact(Len(x)); !ok || m != n {
		return 0
	}
	return all
}

// Resolve follows recorded equalities of a non-integer term.
func (f *Facts) Resolve(t *Term) *Term {
	for n := 0; n < 8; n++ {
		b, ok := f.bind[t]
		if !ok {
			return t
		}
		t = b
	}
	return t
}

// Assume adds t == pos; it returns false when that contradicts what is known.
func (f *Facts) Assume(t *Term, pos bool) bool {
	if f.bad {
		return false
	}
	for t.Op == "not" {
		t = t.Args[0]
		pos = !pos
	}
	switch f.Truth(t) {
	case 1:
		if !pos {
			f.bad = true
			return false
		}
		if t.Op != "bool" {
			f.order = append(f.order, Lit{t, pos, f.tag})
		}
		return true
	case -1:
		if pos {
			f.bad = true
			return false
		}
		if t.Op != "bool" {
			f.order = append(f.order, Lit{t, pos, f.tag})
		}
		return true
	}
	f.order = append(f.order, Lit{t, pos, f.tag})
	switch t.Op {
	case "le0":
		e := t.Args[0]
		if !pos {
			e = Add(Scale(e, -1), Int(1))
		}
		f.addLe(e)
	case "eq0":
		e := t.Args[0]
		if pos {
			f.addLe(e)
			f.addLe(Scale(e, -1))
		} else {
			f.neq = append(f.neq, e)
			f.tighten()
		}
	case "and":
		if pos {
			for _, a := range t.Args {
				if !f.Assume(a, true) {
					return false
				}
			}
		}
		f.atoms[t] = pos
	default:
		f.atoms[t] = pos
		if t.Op == "eq" && pos {
			a, b := f.Resolve(t.Args[0]), f.Resolve(t.Args[1])
			ca, cb := isConst(a), isConst(b)
			switch {
			case ca && cb:
				if a != b {
					f.bad = true
				}
			case cb:
				f.bind[a] = b
			case ca:
				f.bind[b] = a
			default:
				if a.id < b.id {
					f.bind[b] = a
				} else {
					f.bind[a] = b
				}
			}
			if isStringType(a.T) || isStringType(b.T) || a.IsStr() || b.IsStr() {
				la := EqInt(Len(a), Len(b))
				if f.Truth(la) == 0 {
					f.Assume(la, true)
					f.order = f.order[:len(f.order)-1]
				}
			}
			if a.Op == "struct" || b.Op == "struct" {
				n := 0
				if a.Op == "struct" {
					n = len(a.Args)
				} else {
					n = len(b.Args)
				}
				for i := 0; i < n; i++ {
					e := Eq(Field(a, i, nil), Field(b, i, nil))
					if !f.Assume(e, true) {
						return false
					}
				}
			}
		}
	}
	return !f.bad
}

func isConst(t *Term) bool {
	switch t.Op {
	case "str", "nil", "int", "bool", "ref", "global", "struct":
		return true
	}
	return false
}

func (f *Facts) addLe(e *Term) {
	if e.IsInt() {
		if e.K > 0 {
			f.bad = true
		}
		return
	}
	i, j, k := f.split(e)
	f.edge(i, j, -k)
	f.tighten()
}

// tighten uses disequalities at the boundary of the zone.
func (f *Facts) tighten() {
	for changed := true; changed && !f.bad; {
		changed = false
		for _, n := range f.neq {
			u, ok1 := f.Upper(n)
			l, ok2 := f.Lower(n)
			if ok1 && ok2 && u == 0 && l == 0 {
				f.bad = true
				return
			}
			if ok1 && u == 0 {
				i, j, k := f.split(n)
				f.edge(i, j, -1-k)
				changed = true
			} else if ok2 && l == 0 {
				i, j, k := f.split(Scale(n, -1))
				f.edge(i, j, -1-k)
				changed = true
			}
		}
	}
}

// DynType returns the exact dynamic type known for an interface term.
func (f *Facts) DynType(t *Term) types.Type {
	if t.Op == "iface" {
		return t.T
	}
	return f.dyn[t]
}

// AssumeDyn records that the dynamic type of t is (or is not) ty.
func (f *Facts) AssumeDyn(t *Term, ty types.Type, is bool) bool {
	if t.Op == "iface" {
		return types.Identical(t.T, ty) == is
	}
	if d, ok := f.dyn[t]; ok {
		if types.Identical(d, ty) != is {
			f.bad = true
			return false
		}
		return true
	}
	for _, n := range f.ndyn[t] {
		if types.Identical(n, ty) {
			if is {
				f.bad = true
				return false
			}
			return true
		}
	}
	if is {
		f.dyn[t] = ty
	} else {
		f.ndyn[t] = append(append([]types.Type(nil), f.ndyn[t]...), ty)
	}
	return true
}

// NotDyn reports whether t is known not to have dynamic type ty.
func (f *Facts) NotDyn(t *Term, ty types.Type) bool {
	if t.Op == "iface" {
		return !types.Identical(t.T, ty)
	}
	if d, ok := f.dyn[t]; ok {
		return !types.Identical(d, ty)
	}
	for _, n := range f.ndyn[t] {
		if types.Identical(n, ty) {
			return true
		}
	}
	return false
}
