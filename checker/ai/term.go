// Package ai is an abstract interpreter over Go SSA.
//
// It evaluates functions over a partitioned abstract domain: integers are
// linear terms constrained by a difference-bound (zone) domain, everything else
// is a hash-consed uninterpreted term, interface values are partitioned by
// dynamic type, and loops are widened at their header (one arbitrary iteration
// plus every exit). Nothing of the analysed program is executed.
package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an immutable hash-consed abstract value.
type Term struct {
	Op   string
	Args []*Term
	S    string
	K    int64
	Co   []int64
	T    types.Type
	Fn   *ssa.Function
	id   int
}

// ID returns the interning number of t.
func (t *Term) ID() int { return t.id }

var intern = map[string]*Term{}
var terms int

var typeIDs = map[string]int{}
var typeStrCache = map[types.Type]string{}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := typeStrCache[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	typeStrCache[t] = s
	return s
}

// NonNil names the package variables that are set to a non-nil value when the
// package is initialised and never again.
var NonNil = map[string]bool{}

func mk(t Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.S)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(t.K, 10))
	for _, c := range t.Co {
		b.WriteByte(',')
		b.WriteString(strconv.FormatInt(c, 10))
	}
	b.WriteByte('|')
	for _, a := range t.Args {
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(' ')
	}
	switch t.Op {
	case "as", "iface", "struct", "closure", "func", "zeroarr", "conv", "sym":
		b.WriteByte('|')
		b.WriteString(typeKey(t.T))
	}
	if t.Fn != nil {
		b.WriteString(fmt.Sprintf("|%p", t.Fn))
	}
	k := b.String()
	if v, ok := intern[k]; ok {
		if v.T == nil {
			v.T = t.T
		}
		return v
	}
	terms++
	n := t
	n.id = terms
	p := &n
	intern[k] = p
	return p
}

// Int is an integer constant.
func Int(k int64) *Term { return mk(Term{Op: "int", K: k}) }

// Str is a string constant.
func Str(s string) *Term { return mk(Term{Op: "str", S: s}) }

// Bool is a boolean constant.
func Bool(b bool) *Term {
	if b {
		return mk(Term{Op: "bool", K: 1})
	}
	return mk(Term{Op: "bool"})
}

// Nil is the nil value of every nilable type.
func Nil() *Term { return mk(Term{Op: "nil"}) }

// Sym is a named unknown.
func Sym(name string, t types.Type) *Term { return mk(Term{Op: "sym", S: name, T: t}) }

// App is an uninterpreted function application.
func App(fn string, t types.Type, args ...*Term) *Term {
	if len(args) == 2 && args[1].IsInt() && args[1].K == 1 {
		switch fn {
		case "op%":
			return Int(0)
		case "op/":
			return args[0]
		}
	}
	return mk(Term{Op: "app", S: fn, Args: args, T: t})
}

// Tuple groups several results.
func Tuple(args ...*Term) *Term { return mk(Term{Op: "tuple", Args: args}) }

func (t *Term) IsInt() bool  { return t.Op == "int" }
func (t *Term) IsStr() bool  { return t.Op == "str" }
func (t *Term) IsBool() bool { return t.Op == "bool" }
func (t *Term) True() bool   { return t.Op == "bool" && t.K == 1 }
func (t *Term) False() bool  { return t.Op == "bool" && t.K == 0 }
func (t *Term) IsNil() bool  { return t.Op == "nil" }

// IsApp reports whether t is an application of the named function.
func (t *Term) IsApp(fn string) bool { return t.Op == "app" && t.S == fn }

// linear form ---------------------------------------------------------------

func linOf(t *Term) (map[*Term]int64, int64) {
	switch t.Op {
	case "int":
		return map[*Term]int64{}, t.K
	case "lin":
		m := map[*Term]int64{}
		for i, a := range t.Args {
			m[a] += t.Co[i]
		}
		return m, t.K
	}
	return map[*Term]int64{t: 1}, 0
}

func mkLin(m map[*Term]int64, k int64) *Term {
	var vs []*Term
	for v, c := range m {
		if c != 0 {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return Int(k)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	if len(vs) == 1 && m[vs[0]] == 1 && k == 0 {
		return vs[0]
	}
	co := make([]int64, len(vs))
	for i, v := range vs {
		co[i] = m[v]
	}
	return mk(Term{Op: "lin", Args: vs, Co: co, K: k, T: types.Typ[types.Int]})
}

// Add returns a + s*b.
func addScaled(a, b *Term, s int64) *Term {
	m, k := linOf(a)
	m2, k2 := linOf(b)
	for v, c := range m2 {
		m[v] += s * c
	}
	return mkLin(m, k+s*k2)
}

func Add(a, b *Term) *Term { return addScaled(a, b, 1) }
func Sub(a, b *Term) *Term { return addScaled(a, b, -1) }
func Scale(a *Term, s int64) *Term {
	return addScaled(Int(0), a, s)
}

// comparisons: "le0"(lin): lin <= 0 ; "eq0"(lin): lin == 0 ------------------

func Le(a, b *Term) *Term { return le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return le0(Add(Sub(a, b), Int(1))) }

func le0(e *Term) *Term {
	if e.IsInt() {
		return Bool(e.K <= 0)
	}
	return mk(Term{Op: "le0", Args: []*Term{e}, T: types.Typ[types.Bool]})
}

func eq0(e *Term) *Term {
	if e.IsInt() {
		return Bool(e.K == 0)
	}
	// sign-normalise
	m, k := linOf(e)
	neg := false
	{
		var first *Term
		for v := range m {
			if first == nil || v.id < first.id {
				first = v
			}
		}
		if m[first] < 0 {
			neg = true
		}
	}
	if neg {
		for v := range m {
			m[v] = -m[v]
		}
		k = -k
	}
	return mk(Term{Op: "eq0", Args: []*Term{mkLin(m, k)}, T: types.Typ[types.Bool]})
}

func EqInt(a, b *Term) *Term {
	for i := 0; i < 2; i++ {
		// one bit of a word, shifted down or masked out
		if x, k, ok := shiftedBit(a); ok && b.IsInt() && (b.K == 0 || b.K == 1) {
			m := App("op<<", a.T, Int(1), k)
			if x.id < m.id {
				x, m = m, x
			}
			z := eq0(App("op&", a.T, m, x))
			if b.K == 1 {
				return Not(z)
			}
			return z
		}
		a, b = b, a
	}
	return eq0(Sub(a, b))
}

// shiftedBit recognises (x >> k) & 1.
func shiftedBit(t *Term) (x, k *Term, ok bool) {
	if t.Op != "app" || t.S != "op&" || len(t.Args) != 2 {
		return nil, nil, false
	}
	for i, a := range t.Args {
		if s := t.Args[1-i]; a.IsInt() && a.K == 1 && s.Op == "app" && s.S == "op>>" {
			return s.Args[0], s.Args[1], true
		}
	}
	return nil, nil, false
}

func Not(a *Term) *Term {
	switch a.Op {
	case "bool":
		return Bool(a.K == 0)
	case "not":
		return a.Args[0]
	case "le0":
		return le0(Add(Scale(a.Args[0], -1), Int(1)))
	}
	return mk(Term{Op: "not", Args: []*Term{a}, T: types.Typ[types.Bool]})
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// intLike reports whether the term denotes an integer.
func intLike(t *Term) bool {
	return t.Op == "int" || t.Op == "lin" || isIntType(t.T)
}

// Eq builds an equality atom, folding what is certain.
func Eq(a, b *Term) *Term {
	if a == b {
		return Bool(true)
	}
	if intLike(a) && intLike(b) {
		return EqInt(a, b)
	}
	if a.IsBool() {
		if a.True() {
			return b
		}
		return Not(b)
	}
	if b.IsBool() {
		if b.True() {
			return a
		}
		return Not(a)
	}
	if a.IsStr() && b.IsStr() {
		return Bool(a.S == b.S)
	}
	// empty string vs non-empty
	if a.IsStr() && a.S == "" && isStringType(b.T) {
		return EqInt(Len(b), Int(0))
	}
	if b.IsStr() && b.S == "" && isStringType(a.T) {
		return EqInt(Len(a), Int(0))
	}
	if a.IsStr() || b.IsStr() {
		if c, other := a, b; c.IsStr() || other.IsStr() {
			if !c.IsStr() {
				c, other = other, c
			}
			if r, ok := catEqConst(other, c.S); ok {
				return r
			}
		}
	}
	if a.Op == "cat" && b.Op == "cat" {
		// what both begin or end with does not matter
		x, y := a.Args, b.Args
		for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
			x, y = x[1:], y[1:]
		}
		for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
			x, y = x[:len(x)-1], y[:len(y)-1]
		}
		if len(x) < len(a.Args) && len(x) > 0 && len(y) > 0 {
			return Eq(Cat(x...), Cat(y...))
		}
	}
	if a.IsNil() || b.IsNil() {
		o := a
		if a.IsNil() {
			o = b
		}
		switch o.Op {
		case "deref":
			if o.Args[0].Op == "global" && NonNil[o.Args[0].S] {
				return Bool(false)
			}
		case "ref", "faddr", "iaddr", "closure", "func", "iface", "struct", "global", "mapref":
			return Bool(false)
		case "nil":
			return Bool(true)
		case "seq", "slice":
			return Bool(false)
		}
	}
	if a.Op == "ref" && b.Op == "ref" {
		return Bool(false) // distinct allocations
	}
	if a.Op == "global" && b.Op == "global" {
		return Bool(false)
	}
	if a.Op == "ref" && (b.Op == "global" || b.Op == "param") || b.Op == "ref" && (a.Op == "global" || a.Op == "param") {
		return Bool(false)
	}
	if a.Op == "struct" || b.Op == "struct" {
		if r := structEq(a, b); r != nil {
			return r
		}
	}
	if a.Op == "iface" && b.Op == "iface" {
		if !types.Identical(a.T, b.T) {
			return Bool(false)
		}
		return Eq(a.Args[0], b.Args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{Op: "eq", Args: []*Term{a, b}, T: types.Typ[types.Bool]})
}

func structEq(a, b *Term) *Term {
	s := a
	if s.Op != "struct" {
		s = b
	}
	n := len(s.Args)
	var pend []*Term
	for i := 0; i < n; i++ {
		e := Eq(Field(a, i, nil), Field(b, i, nil))
		if e.False() {
			return Bool(false)
		}
		if !e.True() {
			pend = append(pend, e)
		}
	}
	if len(pend) == 0 {
		return Bool(true)
	}
	if len(pend) == 1 {
		return pend[0]
	}
	return nil
}

func catEqConst(t *Term, c string) (*Term, bool) {
	if t.Op != "cat" {
		return nil, false
	}
	// prefix / suffix mismatch decides
	first := t.Args[0]
	if first.IsStr() && !strings.HasPrefix(c, first.S) {
		return Bool(false), true
	}
	last := t.Args[len(t.Args)-1]
	if last.IsStr() && !strings.HasSuffix(c, last.S) {
		return Bool(false), true
	}
	return nil, false
}

// structures ----------------------------------------------------------------

// Struct builds a struct value, eta-reducing.
func Struct(t types.Type, fields []*Term) *Term {
	if len(fields) > 0 {
		f0 := fields[0]
		if f0.Op == "fld" && f0.K == 0 {
			base := f0.Args[0]
			ok := base.T != nil && t != nil && types.Identical(base.T, t)
			for i, f := range fields {
				if !ok {
					break
				}
				if f.Op != "fld" || f.K != int64(i) || f.Args[0] != base {
					ok = false
				}
			}
			if ok {
				return base
			}
		}
	}
	return mk(Term{Op: "struct", Args: fields, T: t})
}

// StructType returns the struct type behind t.
func StructType(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// Field projects field i of a struct value.
func Field(v *Term, i int, ft types.Type) *Term {
	if v.Op == "struct" {
		return v.Args[i]
	}
	name := strconv.Itoa(i)
	if st := StructType(v.T); st != nil && i < st.NumFields() {
		name = st.Field(i).Name()
		ft = st.Field(i).Type()
	}
	return mk(Term{Op: "fld", S: name, K: int64(i), Args: []*Term{v}, T: ft})
}

// FieldByName projects a named field; nil if unknown.
func FieldByName(v *Term, name string) *Term {
	st := StructType(v.T)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return Field(v, i, st.Field(i).Type())
		}
	}
	return nil
}

// WithField is a functional update.
func WithField(v *Term, t types.Type, i int, x *Term) *Term {
	st := StructType(t)
	n := st.NumFields()
	fs := make([]*Term, n)
	for j := 0; j < n; j++ {
		if j == i {
			fs[j] = x
		} else {
			fs[j] = Field(v, j, st.Field(j).Type())
		}
	}
	return Struct(t, fs)
}

// sequences: "seq" with parts "el"(v) | "spread"(t) -------------------------

func El(v *Term) *Term     { return mk(Term{Op: "el", Args: []*Term{v}}) }
func Spread(v *Term) *Term { return mk(Term{Op: "spread", Args: []*Term{v}}) }

func seqParts(s *Term) []*Term {
	switch s.Op {
	case "nil":
		return nil
	case "seq":
		return s.Args
	case "arr":
		out := make([]*Term, len(s.Args))
		for i, a := range s.Args {
			out[i] = El(a)
		}
		return out
	}
	return []*Term{Spread(s)}
}

// Seq concatenates parts into a normalised sequence value.
func Seq(t types.Type, parts []*Term) *Term {
	if len(parts) == 1 && parts[0].Op == "spread" {
		return parts[0].Args[0]
	}
	// the bytes of texts one after the other
	texts := make([]*Term, 0, len(parts))
	for _, p := range parts {
		if p.Op != "spread" || p.Args[0].Op != "tobytes" {
			break
		}
		texts = append(texts, p.Args[0].Args[0])
	}
	if len(parts) > 0 && len(texts) == len(parts) {
		return ToBytes(Cat(texts...))
	}
	return mk(Term{Op: "seq", Args: parts, T: t})
}

// CopyOf is like Seq, but keeps apart a slice and a copy of it.
func CopyOf(t types.Type, parts []*Term) *Term {
	if isCopy(parts) {
		return mk(Term{Op: "seq", Args: parts, T: t})
	}
	return Seq(t, parts)
}

func isCopy(parts []*Term) bool {
	if len(parts) != 1 || parts[0].Op != "spread" {
		return false
	}
	switch parts[0].Args[0].Op {
	case "seq", "tobytes", "str", "arr", "nil":
		return false
	}
	return true
}

// copied returns what a sequence is a mere copy of.
func copied(x *Term) *Term {
	for x.Op == "seq" && len(x.Args) == 1 && x.Args[0].Op == "spread" {
		x = x.Args[0].Args[0]
	}
	return x
}

// keysOnly forgets what a map built here holds under its keys: how many there
// are does not depend on it.
func keysOnly(x *Term) *Term {
	switch x.Op {
	case "mempty":
		return mk(Term{Op: "mempty"})
	case "mupd":
		return mk(Term{Op: "mupd", Args: []*Term{keysOnly(x.Args[0]), x.Args[1], Bool(true)}})
	case "mdel":
		return mk(Term{Op: "mdel", Args: append([]*Term{keysOnly(x.Args[0])}, x.Args[1:]...)})
	}
	return x
}

// Len is the length of a string, slice, array or map content.
func Len(x *Term) *Term {
	switch x.Op {
	case "nil", "mempty":
		return Int(0)
	case "str":
		return Int(int64(len(x.S)))
	case "arr":
		return Int(int64(len(x.Args)))
	case "slice":
		return Sub(x.Args[2], x.Args[1])
	case "seq":
		n := Int(0)
		for _, p := range x.Args {
			if p.Op == "el" {
				n = Add(n, Int(1))
			} else {
				n = Add(n, Len(p.Args[0]))
			}
		}
		return n
	case "cat":
		n := Int(0)
		for _, p := range x.Args {
			n = Add(n, Len(p))
		}
		return n
	case "sub":
		return Sub(x.Args[2], x.Args[1])
	case "tostr", "tobytes":
		return Len(x.Args[0])
	case "mupd", "mdel":
		x = keysOnly(x)
	}
	return mk(Term{Op: "len", Args: []*Term{x}, T: types.Typ[types.Int]})
}

// Cat concatenates strings.
func Cat(parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.Op == "cat" {
			for _, q := range p.Args {
				add(q)
			}
			return
		}
		if p.IsStr() {
			if p.S == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].IsStr() {
				out[n-1] = Str(out[n-1].S + p.S)
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	if len(out) == 0 {
		return Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(Term{Op: "cat", Args: out, T: types.Typ[types.String]})
}

// SubSeq is x[lo:hi].
func SubSeq(x, lo, hi *Term) *Term {
	if x.Op == "seq" && len(x.Args) == 1 && x.Args[0].Op == "spread" && !(lo.IsInt() && lo.K == 0 && hi == Len(x)) {
		x = copied(x)
	}
	if lo.IsInt() && lo.K == 0 && hi == Len(x) {
		return x
	}
	if x.IsStr() && lo.IsInt() && hi.IsInt() && lo.K >= 0 && hi.K <= int64(len(x.S)) && lo.K <= hi.K {
		return Str(x.S[lo.K:hi.K])
	}
	if x.Op == "sub" {
		return SubSeq(x.Args[0], Add(x.Args[1], lo), Add(x.Args[1], hi))
	}
	if x.Op == "slice" {
		return mk(Term{Op: "slice", Args: []*Term{x.Args[0], Add(x.Args[1], lo), Add(x.Args[1], hi)}, T: x.T})
	}
	if x.Op == "tostr" {
		return ToStr(SubSeq(x.Args[0], lo, hi))
	}
	if x.Op == "seq" && lo.IsInt() && lo.K == 0 {
		// drop trailing elements
		d := Sub(Len(x), hi)
		if d.IsInt() && d.K >= 0 {
			parts := x.Args
			k := d.K
			for k > 0 && len(parts) > 0 && parts[len(parts)-1].Op == "el" {
				parts = parts[:len(parts)-1]
				k--
			}
			if k == 0 {
				return Seq(x.T, parts)
			}
		}
		if hi.IsInt() && hi.K == 0 {
			return Seq(x.T, nil)
		}
	}
	return mk(Term{Op: "sub", Args: []*Term{x, lo, hi}, T: x.T})
}

func ToStr(x *Term) *Term {
	x = copied(x)
	if x.Op == "tobytes" {
		return x.Args[0]
	}
	if x.IsNil() || x.Op == "seq" && len(x.Args) == 0 {
		return Str("")
	}
	return mk(Term{Op: "tostr", Args: []*Term{x}, T: types.Typ[types.String]})
}

func ToBytes(x *Term) *Term {
	if x.Op == "tostr" {
		return x.Args[0]
	}
	return mk(Term{Op: "tobytes", Args: []*Term{x}, T: types.NewSlice(types.Typ[types.Byte])})
}

// String renders a term for reports.
func (t *Term) String() string { return t.render(0) }

func (t *Term) render(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 12 {
		return "…"
	}
	ar := func(sep string) string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.render(d+1))
		}
		return strings.Join(s, sep)
	}
	switch t.Op {
	case "int":
		return strconv.FormatInt(t.K, 10)
	case "bigint":
		return t.S
	case "str":
		return strconv.Quote(t.S)
	case "bool":
		return strconv.FormatBool(t.K == 1)
	case "nil":
		return "nil"
	case "sym", "global", "param":
		return t.S
	case "ref", "mapref":
		return "&" + t.S
	case "lin":
		var b strings.Builder
		for i, a := range t.Args {
			c := t.Co[i]
			switch {
			case c == 1 && i == 0:
			case c == 1:
				b.WriteString("+")
			case c == -1:
				b.WriteString("-")
			default:
				fmt.Fprintf(&b, "%+d*", c)
			}
			b.WriteString(a.render(d + 1))
		}
		if t.K != 0 {
			fmt.Fprintf(&b, "%+d", t.K)
		}
		return b.String()
	case "le0":
		return t.Args[0].render(d+1) + "<=0"
	case "eq0":
		return t.Args[0].render(d+1) + "==0"
	case "eq":
		return t.Args[0].render(d+1) + "==" + t.Args[1].render(d+1)
	case "not":
		return "!(" + t.Args[0].render(d+1) + ")"
	case "fld":
		return t.Args[0].render(d+1) + "." + t.S
	case "faddr":
		return "&" + t.Args[0].render(d+1) + "." + t.S
	case "iaddr":
		return "&" + t.Args[0].render(d+1) + "[" + t.Args[1].render(d+1) + "]"
	case "index":
		return t.Args[0].render(d+1) + "[" + t.Args[1].render(d+1) + "]"
	case "len":
		return "len(" + ar(",") + ")"
	case "sub":
		return t.Args[0].render(d+1) + "[" + t.Args[1].render(d+1) + ":" + t.Args[2].render(d+1) + "]"
	case "deref":
		return "*" + t.Args[0].render(d+1)
	case "app":
		return t.S + "(" + ar(", ") + ")"
	case "struct":
		n := ""
		if t.T != nil {
			n = types.TypeString(t.T, func(*types.Package) string { return "" })
		}
		return n + "{" + ar(", ") + "}"
	case "iface":
		return t.Args[0].render(d + 1)
	case "as":
		return t.Args[0].render(d+1) + ".(" + types.TypeString(t.T, func(*types.Package) string { return "" }) + ")"
	case "el":
		return t.Args[0].render(d + 1)
	case "spread":
		return t.Args[0].render(d+1) + "..."
	case "seq", "arr":
		return "[" + ar(", ") + "]"
	case "tuple":
		return "(" + ar(", ") + ")"
	case "cat":
		return ar("+")
	case "closure", "func":
		return "func:" + t.Fn.Name()
	case "ptrto":
		return "&" + ar(",")
	}
	return t.Op + "[" + t.S + "](" + ar(", ") + ")"
}

// Walk visits t and every sub-term.
func (t *Term) Walk(f func(*Term) bool) {
	if !f(t) {
		return
	}
	for _, a := range t.Args {
		a.Walk(f)
	}
}

// Mentions reports whether sub occurs in t.
func (t *Term) Mentions(sub *Term) bool {
	found := false
	t.Walk(func(x *Term) bool {
		if x == sub {
			found = true
		}
		return !found
	})
	return found
}
