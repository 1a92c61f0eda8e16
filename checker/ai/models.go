package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var tString = types.Typ[types.String]
var tBool = types.Typ[types.Bool]
var tInt = types.Typ[types.Int]
var tRune = types.Typ[types.Int32]

// fork continues on both truth values of a condition.
func (in *Interp) fork(st *State, c *Term, k callK, yes, no *Term) {
	switch st.F.Truth(c) {
	case 1:
		k(st, yes, false)
		return
	case -1:
		k(st, no, false)
		return
	}
	s2 := st.Clone()
	if st.F.Assume(c, true) {
		k(st, yes, true)
	}
	if s2.F.Assume(c, false) {
		k(s2, no, true)
	}
}

// window normalises a byte/string view into (base, offset, end).
func window(t *Term) (base, off, end *Term) {
	switch t.Op {
	case "sub":
		b, o, _ := window(t.Args[0])
		return b, Add(o, t.Args[1]), Add(o, t.Args[2])
	case "tostr", "tobytes":
		return window(t.Args[0])
	}
	return t, Int(0), Len(t)
}

// builder content -----------------------------------------------------------

func (in *Interp) appendStr(st *State, p, s *Term) {
	cur := in.strOf(st, p)
	st.heap[mk(Term{Op: "bld", Args: []*Term{p}})] = Cat(cur, s)
	if Root(p).Op != "ref" {
		st.event(Event{Kind: "write", Args: []*Term{p, s}})
	}
}

func (in *Interp) strOf(st *State, p *Term) *Term {
	if v, ok := st.heap[mk(Term{Op: "bld", Args: []*Term{p}})]; ok {
		return v
	}
	if Root(p).Op == "ref" {
		return Str("")
	}
	return App("bld0", tString, p)
}

func foldASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// ToLower models strings.ToLower as a term.
func ToLower(t *Term) *Term {
	if t.IsStr() {
		return Str(strings.ToLower(t.S))
	}
	if t.IsApp("lower") {
		return t
	}
	if t.Op == "cat" {
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = ToLower(a)
		}
		return Cat(as...)
	}
	return App("lower", tString, t)
}

// Itoa models strconv.Itoa.
func Itoa(t *Term) *Term {
	if t.IsInt() {
		return Str(fmt.Sprint(t.K))
	}
	return App("itoa", tString, t)
}

func (in *Interp) sprintf(st *State, format string, args []*Term) *Term {
	var parts []*Term
	ai := 0
	i := 0
	lit := ""
	for i < len(format) {
		if format[i] != '%' {
			lit += string(format[i])
			i++
			continue
		}
		j := i + 1
		for j < len(format) && strings.ContainsRune("+-# 0123456789.*[]", rune(format[j])) {
			j++
		}
		if j >= len(format) {
			lit += format[i:]
			break
		}
		verb := format[i : j+1]
		i = j + 1
		if verb == "%%" {
			lit += "%"
			continue
		}
		if strings.Contains(verb, "*") {
			return App("fmt"+format, tString, args...)
		}
		// an argument given by its number
		if l, r := strings.IndexByte(verb, '['), strings.IndexByte(verb, ']'); l >= 0 && l < r {
			n, err := strconv.Atoi(verb[l+1 : r])
			if err != nil || n < 1 || n > len(args) {
				return App("fmt"+format, tString, args...)
			}
			ai = n - 1
			verb = verb[:l] + verb[r+1:]
		}
		if ai >= len(args) {
			lit += "%!" + verb[1:] + "(MISSING)"
			continue
		}
		a := args[ai]
		ai++
		parts = append(parts, Str(lit), in.fmtArg(st, verb, a))
		lit = ""
	}
	parts = append(parts, Str(lit))
	return Cat(parts...)
}

func (in *Interp) fmtArg(st *State, verb string, a *Term) *Term {
	v := a
	var dt types.Type
	if a.Op == "iface" {
		v = a.Args[0]
		dt = a.T
	} else if d := st.F.DynType(a); d != nil {
		dt = d
	}
	v = st.F.Resolve(v)
	switch verb {
	case "%s", "%v":
		if dt != nil {
			// a Stringer prints with its String method
			ms := in.Prog.MethodSets.MethodSet(dt)
			hasStr := ms.Lookup(nil, "String") != nil
			hasErr := ms.Lookup(nil, "Error") != nil
			if !hasStr && !hasErr {
				if isStringType(dt) {
					return v
				}
				if isIntType(dt) && verb == "%v" {
					return Itoa(v)
				}
			}
			if hasErr {
				return App("invoke:Error", tString, st.Deep(a))
			}
			if hasStr {
				if m := in.Prog.LookupMethod(dt, nil, "String"); m != nil && in.Local != nil && in.Local(m) {
					return in.stringOf(st, m, v)
				}
				return App("String", tString, st.Deep(v))
			}
		} else {
			if a.T != nil {
				if obj, _, _ := types.LookupFieldOrMethod(a.T, false, nil, "Error"); obj != nil {
					return App("invoke:Error", tString, st.Deep(a))
				}
			}
			return App("String", tString, st.Deep(v))
		}
	case "%d":
		return Itoa(v)
	case "%q":
		if v.IsStr() {
			return Str(fmt.Sprintf("%q", v.S))
		}
		return App("quote", tString, v)
	}
	if v.IsInt() {
		return Str(fmt.Sprintf(verb, v.K))
	}
	if v.IsStr() {
		return Str(fmt.Sprintf(verb, v.S))
	}
	return App("fmt"+verb, tString, st.Deep(v))
}

func (in *Interp) variadic(st *State, s *Term) ([]*Term, bool) {
	ps := in.parts(st, s)
	var out []*Term
	for _, p := range ps {
		if p.Op != "el" {
			return nil, false
		}
		out = append(out, p.Args[0])
	}
	return out, true
}

// model interprets library functions. It returns false when there is none.
func (in *Interp) model(fr *frame, fn *ssa.Function, args []*Term, pos token.Pos, st *State, k callK) bool {
	name := ExtKey(fn)
	switch name {
	case "strings.ToLower":
		k(st, ToLower(st.F.Resolve(args[0])), false)
	case "strings.ToUpper":
		if args[0].IsStr() {
			k(st, Str(strings.ToUpper(args[0].S)), false)
		} else {
			k(st, App("upper", tString, args[0]), false)
		}
	case "strings.EqualFold":
		a, b := st.F.Resolve(args[0]), st.F.Resolve(args[1])
		if a.IsStr() && b.IsStr() {
			k(st, Bool(strings.EqualFold(a.S, b.S)), false)
			break
		}
		k(st, Eq(ToLower(a), ToLower(b)), false)
	case "strings.TrimSuffix", "strings.TrimPrefix":
		in.trimAffix(st, name == "strings.TrimSuffix", args[0], args[1], k)
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte", "strings.ContainsRune", "strings.Cut",
		"bytes.Index", "bytes.IndexByte", "bytes.IndexRune", "bytes.LastIndex", "bytes.LastIndexByte", "bytes.Contains", "bytes.ContainsRune", "bytes.Cut":
		return in.find(st, fn, name[strings.IndexByte(name, '.')+1:], args, k)
	case "unicode.ToLower", "unicode.ToUpper":
		in.runeCase(st, name == "unicode.ToLower", args[0], k)
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		a, b := st.F.Resolve(args[0]), st.F.Resolve(args[1])
		if a.IsStr() && b.IsStr() {
			var r bool
			switch name {
			case "strings.HasPrefix":
				r = strings.HasPrefix(a.S, b.S)
			case "strings.HasSuffix":
				r = strings.HasSuffix(a.S, b.S)
			default:
				r = strings.Contains(a.S, b.S)
			}
			k(st, Bool(r), false)
			break
		}
		if name == "strings.HasPrefix" {
			in.hasPrefix(st, args[0], args[1], k)
			break
		}
		if name == "strings.Contains" {
			return in.find(st, fn, "Contains", args, k)
		}
		k(st, App(name, tBool, a, b), false)
	case "bytes.Equal":
		str := func(a *Term) *Term {
			return in.convert(st, a, types.NewSlice(types.Typ[types.Byte]), tString)
		}
		k(st, eqTyped(st, str(st.F.Resolve(args[0])), str(st.F.Resolve(args[1])), tString), false)
	case "bytes.HasPrefix":
		in.hasPrefix(st, args[0], args[1], k)
	case "math/big.NewInt":
		t := elemType(fn.Signature.Results().At(0).Type())
		r := mk(Term{Op: "ref", S: st.fresh(typeKey(t)), T: t})
		st.Store(r, App(name, t, args...), t)
		k(st, r, false)
	case "math/big.Int.Add", "math/big.Int.Sub", "math/big.Int.Mul", "math/big.Int.Set", "math/big.Int.SetInt64", "math/big.Int.SetUint64":
		// the receiver becomes the result, and is what the call returns
		if args[0].Op != "ref" {
			return false
		}
		t := args[0].elem()
		vs := make([]*Term, 0, len(args))
		for _, a := range args[1:] {
			if a.Op == "ref" {
				a = st.Load(a, t)
			} else if a.T != nil {
				if _, ok := a.T.Underlying().(*types.Pointer); ok {
					a = st.content(a, t)
				}
			}
			vs = append(vs, st.Deep(a))
		}
		v := App(name, t, vs...)
		switch name {
		case "math/big.Int.Set":
			v = vs[0]
		case "math/big.Int.SetInt64", "math/big.Int.SetUint64":
			v = App("math/big.NewInt", t, vs...)
		}
		st.Store(args[0], v, t)
		k(st, args[0], false)
	case "strings.Join":
		ps, ok := in.variadic(st, args[0])
		if !ok {
			ps, ok = in.variadic(st, st.Deep(args[0]))
		}
		if !ok {
			k(st, App("join", tString, st.Deep(args[0]), args[1]), false)
			break
		}
		var out []*Term
		for i, p := range ps {
			if i > 0 {
				out = append(out, args[1])
			}
			out = append(out, p)
		}
		k(st, Cat(out...), false)
	case "strings.Repeat":
		if v, ok := st.F.Exact(args[1]); ok {
			args[1] = Int(v)
		}
		if args[0].IsStr() && args[1].IsInt() && args[1].K >= 0 && args[1].K < 4096 {
			k(st, Str(strings.Repeat(args[0].S, int(args[1].K))), false)
			break
		}
		k(st, App("repeat", tString, args...), false)
	case "strings.Builder.WriteString", "bytes.Buffer.WriteString":
		in.appendStr(st, args[0], args[1])
		k(st, Tuple(Len(args[1]), Nil()), false)
	case "strings.Builder.WriteByte", "bytes.Buffer.WriteByte":
		if args[1].IsInt() {
			in.appendStr(st, args[0], Str(string([]byte{byte(args[1].K)})))
		} else {
			in.appendStr(st, args[0], App("byte2str", tString, args[1]))
		}
		k(st, Nil(), false)
	case "strings.Builder.WriteRune", "bytes.Buffer.WriteRune":
		if args[1].IsInt() {
			in.appendStr(st, args[0], Str(string(rune(args[1].K))))
		} else {
			in.appendStr(st, args[0], App("rune2str", tString, args[1]))
		}
		k(st, Tuple(Len(App("rune2str", tString, args[1])), Nil()), false)
	case "strings.Builder.String", "bytes.Buffer.String":
		k(st, in.strOf(st, args[0]), false)
	case "strings.Builder.Len", "bytes.Buffer.Len":
		k(st, Len(in.strOf(st, args[0])), false)
	case "bytes.Buffer.Bytes":
		k(st, ToBytes(in.strOf(st, args[0])), false)
	case "fmt.Fprintf":
		as, ok := in.variadic(st, args[2])
		w := args[0]
		if w.Op == "iface" {
			w = w.Args[0]
		}
		w = stdout(w)
		if ok && args[1].IsStr() {
			in.appendStr(st, w, in.sprintf(st, args[1].S, as))
		} else {
			in.appendStr(st, w, App("sprintf", tString, args[1], st.Deep(args[2])))
		}
		k(st, Tuple(Sym("fprintf.n", tInt), Nil()), false)
	case "fmt.Printf":
		as, ok := in.variadic(st, args[1])
		if ok && args[0].IsStr() {
			in.appendStr(st, stdout(nil), in.sprintf(st, args[0].S, as))
		} else {
			in.appendStr(st, stdout(nil), App("sprintf", tString, args[0], st.Deep(args[1])))
		}
		k(st, Tuple(Sym("fprintf.n", tInt), Nil()), false)
	case "fmt.Print", "fmt.Println":
		return in.model2("fmt.F"+strings.ToLower(name[4:5])+name[5:], []*Term{stdout(nil), args[0]}, st, k)
	case "fmt.Fprint", "fmt.Fprintln":
		return in.model2(name, args, st, k)
	case "fmt.Sprintf":
		as, ok := in.variadic(st, args[1])
		if ok && args[0].IsStr() {
			k(st, in.sprintf(st, args[0].S, as), false)
		} else {
			k(st, App("sprintf", tString, args[0], st.Deep(args[1])), false)
		}
	case "fmt.Sprint":
		as, ok := in.variadic(st, args[0])
		if ok && len(as) == 1 {
			k(st, in.fmtArg(st, "%v", as[0]), false)
		} else {
			k(st, App("sprint", tString, st.Deep(args[0])), false)
		}
	case "strconv.Itoa":
		k(st, Itoa(args[0]), false)
	case "strconv.FormatInt", "strconv.FormatUint":
		if args[1].IsInt() && args[1].K == 10 {
			k(st, Itoa(args[0]), false)
		} else {
			k(st, App("formatint", tString, args...), false)
		}
	case "strconv.Atoi", "strconv.ParseInt":
		base := Int(10)
		if len(args) == 3 {
			if base = args[1]; !args[2].IsInt() || args[2].K != 0 && args[2].K != 64 {
				return false
			}
		}
		k(st, Tuple(App("strconv.parseint", tInt, args[0], base), App("strconv.parseint.err", fn.Signature.Results().At(1).Type(), args[0], base)), false)
	case "strconv.Quote":
		if args[0].IsStr() {
			k(st, Str(fmt.Sprintf("%q", args[0].S)), false)
		} else {
			k(st, App("quote", tString, args[0]), false)
		}
	case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
		b, off, _ := window(args[0])
		if b.IsStr() && off.IsInt() && off.K >= 0 && off.K <= int64(len(b.S)) {
			r, n := utf8.DecodeRuneInString(b.S[off.K:])
			k(st, Tuple(Int(int64(r)), Int(int64(n))), false)
			break
		}
		r, n := App("dec.rune", tRune, b, off), App("dec.size", tInt, b, off)
		k(st, Tuple(r, n), false)
	case "unicode/utf8.RuneCountInString":
		k(st, Len(in.convert(st, args[0], types.Typ[types.String], types.NewSlice(types.Typ[types.Rune]))), false)
		return true
	case "unicode/utf8.RuneLen":
		r := args[0]
		in.validRune(st, r, func(st *State, ok *Term, split bool) {
			if ok.True() {
				k(st, Len(App("rune2str", tString, r)), split)
				return
			}
			k(st, Int(-1), split)
		})
	case "unicode/utf8.ValidRune":
		in.validRune(st, args[0], k)
	case "unicode/utf8.AppendRune":
		ps := append([]*Term(nil), in.parts(st, args[0])...)
		ps = append(ps, Spread(ToBytes(App("rune2str", tString, args[1]))))
		k(st, Seq(fn.Signature.Results().At(0).Type(), ps), false)
	case "slices.Concat":
		as, ok := in.variadic(st, args[0])
		if !ok {
			return false
		}
		var ps []*Term
		for _, a := range as {
			ps = append(ps, in.parts(st, a)...)
		}
		k(st, Seq(fn.Signature.Results().At(0).Type(), ps), false)
	case "slices.Clone":
		k(st, CopyOf(fn.Signature.Results().At(0).Type(), in.parts(st, args[0])), false)
	case "slices.Contains":
		as, ok := in.variadic(st, args[0])
		if !ok {
			as, ok = in.variadic(st, st.Deep(args[0]))
		}
		if ok && len(as) < 12 {
			var rec func(st *State, i int, fk bool)
			rec = func(st *State, i int, fk bool) {
				if i == len(as) {
					k(st, Bool(false), fk)
					return
				}
				e := Eq(as[i], st.F.Resolve(args[1]))
				switch st.F.Truth(e) {
				case 1:
					k(st, Bool(true), fk)
				case -1:
					rec(st, i+1, fk)
				default:
					s2 := st.Clone()
					if st.F.Assume(e, true) {
						k(st, Bool(true), true)
					}
					if s2.F.Assume(e, false) {
						rec(s2, i+1, true)
					}
				}
			}
			rec(st, 0, false)
			break
		}
		k(st, App("slices.Contains", tBool, st.Deep(args[0]), st.Deep(args[1])), false)
	case "slices.ContainsFunc", "slices.IndexFunc":
		f := st.F.Resolve(args[1])
		if in.Peel <= 0 || f.Op != "func" && f.Op != "closure" {
			return false
		}
		var rec func(st *State, i int)
		rec = func(st *State, i int) {
			if i > in.Peel {
				in.Cut = append(in.Cut, st.F)
				return
			}
			more := Lt(Int(int64(i)), in.lenOf(st, args[0], fn.Signature.Params().At(0).Type()))
			end := st.Clone()
			if end.F.Assume(more, false) {
				if name == "slices.IndexFunc" {
					k(end, Int(-1), true)
				} else {
					k(end, Bool(false), true)
				}
			}
			if !st.F.Assume(more, true) {
				return
			}
			e := st.Index(args[0], Int(int64(i)), elemType(args[0].T))
			in.callFn(fr, f.Fn, []*Term{e}, f.Args, pos, st, func(st *State, r *Term, _ bool) {
				r = st.F.Resolve(r)
				no := st.Clone()
				if st.F.Assume(r, true) {
					if name == "slices.IndexFunc" {
						k(st, Int(int64(i)), true)
					} else {
						k(st, Bool(true), true)
					}
				}
				if no.F.Assume(r, false) {
					rec(no, i+1)
				}
			})
		}
		rec(st.Clone(), 0)
	case "maps.Equal":
		k(st, App("maps.Equal", tBool, st.mapContent(args[0]), st.mapContent(args[1])), false)
	case "maps.Clone":
		r := mk(Term{Op: "mapref", S: st.fresh("make" + typeKey(fn.Signature.Results().At(0).Type())), T: fn.Signature.Results().At(0).Type()})
		st.heap[r] = st.mapContent(args[0])
		k(st, r, false)
	case "maps.Copy":
		m := args[0]
		st.event(Event{Kind: "mapcopy", Args: []*Term{m, args[1]}, Pos: pos})
		st.heap[m] = mk(Term{Op: "m0", Args: []*Term{App("union", m.T, st.mapContent(m), st.mapContent(args[1]))}, T: m.T})
		k(st, Tuple(), false)
	case "errors.New":
		k(st, mk(Term{Op: "iface", Args: []*Term{App("errors.New", nil, args[0])}, T: types.NewPointer(types.Typ[types.String])}), false)
	case "fmt.Errorf":
		k(st, mk(Term{Op: "iface", Args: []*Term{App("fmt.Errorf", nil, args[0], st.Deep(args[1]))}, T: types.NewPointer(types.Typ[types.String])}), false)
	default:
		return false
	}
	return true
}

// runeCase models the case mappings of Unicode: as ASCII has it below 128,
// and something other than the identity above.
func (in *Interp) runeCase(st *State, lower bool, r *Term, k callK) {
	lo, hi, d, up := int64('A'), int64('Z'), int64(32), "uni.lower"
	if !lower {
		lo, hi, d, up = 'a', 'z', -32, "uni.upper"
	}
	for _, g := range []struct {
		lo, hi *Term
		res    *Term
	}{
		{nil, Int(lo - 1), r}, {Int(lo), Int(hi), Add(r, Int(d))}, {Int(hi + 1), Int(127), r}, {Int(128), nil, App(up, tRune, r)},
	} {
		s := st.Clone()
		if g.lo != nil && !s.F.Assume(Le(g.lo, r), true) {
			continue
		}
		if g.hi != nil && !s.F.Assume(Le(r, g.hi), true) {
			continue
		}
		k(s, g.res, true)
	}
}

// find models the searches for a constant: where it first or last occurs.
func (in *Interp) find(st *State, fn *ssa.Function, name string, args []*Term, k callK) bool {
	s, n := st.F.Resolve(args[0]), st.F.Resolve(args[1])
	if s.Op == "tobytes" {
		s = s.Args[0]
	}
	needle, ok := "", false
	switch {
	case n.IsStr():
		needle, ok = n.S, true
	case n.IsInt() && n.K > 0 && n.K < 128:
		needle, ok = string(rune(n.K)), true
	case n.Op == "tobytes" && n.Args[0].IsStr():
		needle, ok = n.Args[0].S, true
	}
	if !ok || needle == "" {
		return false
	}
	if s.IsStr() {
		switch {
		case strings.HasPrefix(name, "Last"):
			k(st, Int(int64(strings.LastIndex(s.S, needle))), false)
		case strings.HasPrefix(name, "Index"):
			k(st, Int(int64(strings.Index(s.S, needle))), false)
		case strings.HasPrefix(name, "Contains"):
			k(st, Bool(strings.Contains(s.S, needle)), false)
		default:
			return false
		}
		return true
	}
	op := "sindex"
	if strings.HasPrefix(name, "Last") {
		op = "slast"
	}
	at := App(op, tInt, s, Str(needle))
	other := App(map[string]string{"sindex": "slast", "slast": "sindex"}[op], tInt, s, Str(needle))
	found, none := st.Clone(), st
	okF := found.F.Assume(Le(Int(0), at), true) && found.F.Assume(Le(Add(at, Int(int64(len(needle)))), Len(s)), true) && found.F.Assume(Le(Int(0), other), true)
	okN := none.F.Assume(EqInt(at, Int(-1)), true) && none.F.Assume(EqInt(other, Int(-1)), true)
	yes, no := at, Int(-1)
	switch {
	case strings.HasPrefix(name, "Contains"):
		yes, no = Bool(true), Bool(false)
	case name == "Cut":
		var e *Term
		if isStringType(fn.Signature.Results().At(1).Type()) {
			e = Str("")
		} else {
			e = Zero(fn.Signature.Results().At(1).Type())
		}
		yes = Tuple(SubSeq(args[0], Int(0), at), SubSeq(args[0], Add(at, Int(int64(len(needle)))), Len(args[0])), Bool(true))
		no = Tuple(args[0], e, Bool(false))
	}
	if okF {
		k(found, yes, true)
	}
	if okN {
		k(none, no, true)
	}
	return true
}

func (in *Interp) validRune(st *State, r *Term, k callK) {
	// 0 <= r < 0xD800  or  0xDFFF < r <= 0x10FFFF
	type reg struct{ lo, hi *Term }
	regs := []struct {
		lo, hi *Term
		ok     bool
	}{
		{nil, Int(-1), false}, {Int(0), Int(0xD7FF), true}, {Int(0xD800), Int(0xDFFF), false},
		{Int(0xE000), Int(0x10FFFF), true}, {Int(0x110000), nil, false},
	}
	for _, g := range regs {
		s := st.Clone()
		if g.lo != nil && !s.F.Assume(Le(g.lo, r), true) {
			continue
		}
		if g.hi != nil && !s.F.Assume(Le(r, g.hi), true) {
			continue
		}
		k(s, Bool(g.ok), true)
	}
}

// hasPrefix models "data[off:] starts with s" as the two tests the explicit
// comparison makes: enough bytes remain, and the window equals s.
func (in *Interp) hasPrefix(st *State, data, s *Term, k callK) {
	b, off, end := window(data)
	str := s
	if str.Op == "tobytes" {
		str = str.Args[0]
	}
	fits := Le(Add(off, Len(str)), end)
	w := SubSeq(b, off, Add(off, Len(str)))
	if !isStringType(w.T) {
		w = ToStr(w)
	}
	s2 := st.Clone()
	if s2.F.Assume(fits, false) {
		k(s2, Bool(false), true)
	}
	if st.F.Assume(fits, true) {
		k(st, Eq(w, str), true)
	}
}

func (in *Interp) trimAffix(st *State, suffix bool, s, a *Term, k callK) {
	s = st.F.Resolve(s)
	if s.IsStr() && a.IsStr() {
		if suffix {
			k(st, Str(strings.TrimSuffix(s.S, a.S)), false)
		} else {
			k(st, Str(strings.TrimPrefix(s.S, a.S)), false)
		}
		return
	}
	if s.Op == "cat" && a.IsStr() {
		if suffix {
			last := s.Args[len(s.Args)-1]
			if last.IsStr() && len(last.S) >= len(a.S) {
				ps := append([]*Term(nil), s.Args[:len(s.Args)-1]...)
				ps = append(ps, Str(strings.TrimSuffix(last.S, a.S)))
				k(st, Cat(ps...), false)
				return
			}
		} else {
			first := s.Args[0]
			if first.IsStr() && len(first.S) >= len(a.S) {
				ps := append([]*Term{Str(strings.TrimPrefix(first.S, a.S))}, s.Args[1:]...)
				k(st, Cat(ps...), false)
				return
			}
		}
	}
	n := "trimPrefix"
	if suffix {
		n = "trimSuffix"
	}
	k(st, App(n, tString, s, a), false)
}

var stdoutSym = Sym("stdout", nil)

// stdout names the standard output, however it is written to.
func stdout(w *Term) *Term {
	if w == nil || w.Op == "deref" && w.Args[0].Op == "global" && w.Args[0].S == "os.Stdout" {
		return stdoutSym
	}
	return w
}

// model2 models fmt.Fprint and fmt.Fprintln.
func (in *Interp) model2(name string, args []*Term, st *State, k callK) bool {
	as, ok := in.variadic(st, args[1])
	w := args[0]
	if w.Op == "iface" {
		w = w.Args[0]
	}
	w = stdout(w)
	var ps []*Term
	if ok {
		for i, a := range as {
			if i > 0 && name == "fmt.Fprintln" {
				ps = append(ps, Str(" "))
			}
			ps = append(ps, in.fmtArg(st, "%v", a))
		}
	} else {
		ps = append(ps, App("sprint", tString, st.Deep(args[1])))
	}
	if name == "fmt.Fprintln" {
		ps = append(ps, Str("\n"))
	}
	in.appendStr(st, w, Cat(ps...))
	k(st, Tuple(Sym("fprintf.n", tInt), Nil()), false)
	return true
}
