package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"os"
	"runtime"
	"runtime/metrics"
	"sort"
	"strings"
	"time"
)

// Verdict of a comparison.
type Verdict int

const (
	Same Verdict = iota
	Differs
	Unknown
)

// Diff explains a difference between two summaries.
type Diff struct {
	V          Verdict
	What       string
	Cur, Ref   *Outcome
	Assumption []string
}

func (d Diff) String() string {
	var b strings.Builder
	b.WriteString(d.What)
	if len(d.Assumption) > 0 {
		b.WriteString("\nin the region:")
		for _, a := range d.Assumption {
			b.WriteString("\n  " + a)
		}
	}
	return b.String()
}

// join adds every assumption of o to f; false when the regions are disjoint.
// clashes reports a contradiction that shows without combining the two.
func (f *Facts) clashes(o *Facts) bool {
	a, b := f, o
	if len(a.atoms) > len(b.atoms) {
		a, b = b, a
	}
	for t, v := range a.atoms {
		if w, ok := b.atoms[t]; ok && w != v {
			return true
		}
	}
	for t, d := range o.dyn {
		if f.NotDyn(t, d) {
			return true
		}
	}
	for t, ds := range o.ndyn {
		for _, d := range ds {
			if e, ok := f.dyn[t]; ok && types.Identical(e, d) {
				return true
			}
		}
	}
	ls := f.litSet()
	for _, l := range o.order {
		if p, ok := ls[l.T]; ok && p != l.Pos {
			return true
		}
	}
	for _, l := range o.order {
		if _, ok := ls[l.T]; ok {
			continue
		}
		if t := f.Truth(l.T); t == 1 && !l.Pos || t == -1 && l.Pos {
			return true
		}
	}
	return false
}

func (f *Facts) litSet() map[*Term]bool {
	if f.lits == nil || f.nlits != len(f.order) {
		f.lits = make(map[*Term]bool, len(f.order))
		for _, l := range f.order {
			f.lits[l.T] = l.Pos
		}
		f.nlits = len(f.order)
	}
	return f.lits
}

func (f *Facts) join(o *Facts) bool {
	for t, v := range o.atoms {
		if w, ok := f.atoms[t]; ok && w != v {
			return false
		}
	}
	for t, d := range o.dyn {
		if !f.AssumeDyn(t, d, true) {
			return false
		}
	}
	for t, ds := range o.ndyn {
		for _, d := range ds {
			if !f.AssumeDyn(t, d, false) {
				return false
			}
		}
	}
	for _, l := range o.order {
		if !f.Assume(l.T, l.Pos) {
			return false
		}
	}
	return f.recheck()
}

// recheck re-evaluates recorded literals under everything that is known, to
// find contradictions that only show once equalities are resolved.
func (f *Facts) recheck() bool {
	for t, v := range f.atoms {
		if t.Op == "eq" {
			for i := range t.Args {
				// an absent entry reads as zero
				if m := t.Args[i]; !v && m.Op == "app" && m.S == "mget" && t.Args[1-i].IsNil() && f.Truth(MHas(m.Args[0], m.Args[1])) == -1 {
					return false
				}
			}
			a, b := f.Subst(t.Args[0]), f.Subst(t.Args[1])
			if a == b && !v {
				return false
			}
			e := Eq(a, b)
			if e.IsBool() && e.True() != v {
				return false
			}
			if e != t && !e.IsBool() {
				if w := f.Truth(e); w == 1 && !v || w == -1 && v {
					return false
				}
			}
			continue
		}
		if s := f.Subst(t); s != t {
			if w, ok := f.atoms[s]; ok && w != v {
				return false
			}
			if s.IsBool() && s.True() != v {
				return false
			}
		}
	}
	// an element at a position that is known
	for _, v := range f.vars {
		if v == nil || v.Op != "index" || v.Args[1].IsInt() {
			continue
		}
		i := f.Subst(v.Args[1])
		if i == v.Args[1] {
			continue
		}
		if at := Rebuild(v, []*Term{v.Args[0], i}); at != v && intLike(at) {
			if f.Truth(EqInt(v, at)) == -1 || f.Truth(EqInt(f.Subst(v), at)) == -1 {
				return false
			}
		}
	}
	upper, lower := map[*Term]int64{}, map[*Term]int64{}
	for _, l := range f.order {
		if l.T.Op != "le0" || l.T.Args[0].Op != "lin" || len(l.T.Args[0].Args) < 2 {
			continue
		}
		e := f.Subst(l.T.Args[0])
		if m, k := linOf(e); len(m) > 1 {
			// the same sum, bounded from both sides
			sum := mkLin(m, 0)
			if l.Pos {
				if u, ok := upper[sum]; !ok || -k < u {
					upper[sum] = -k
				}
			} else if b, ok := lower[sum]; !ok || 1-k > b {
				lower[sum] = 1 - k
			}
			u, ok1 := upper[sum]
			b, ok2 := lower[sum]
			if ok1 && ok2 && b > u {
				return false
			}
		}
		if l.Pos {
			if b, ok := f.sumBound(e, false); ok && b > 0 {
				return false
			}
		} else if b, ok := f.sumBound(e, true); ok && b <= 0 {
			return false
		}
	}
	for t, b := range f.bind {
		if t.Op != "index" && t.Op != "fld" && t.Op != "deref" {
			continue
		}
		memo := map[*Term]*Term{}
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = f.subst(a, memo)
			ch = ch || as[i] != a
		}
		if !ch {
			continue
		}
		if r := Rebuild(t, as); r != t && f.Truth(Eq(r, f.Subst(b))) == -1 {
			return false
		}
	}
	for t, v := range f.atoms {
		// a map that has an entry is not empty
		if v && t.Op == "app" && t.S == "mhas" {
			n, ok := f.Exact(Len(t.Args[0]))
			if ok && n <= 0 {
				return false
			}
			if key := t.Args[1]; ok && n <= 3 && !(key.Op == "app" && key.S == "mkey") {
				all := true
				for i := 0; int64(i) < n; i++ {
					if f.Truth(Eq(mapKey(t.Args[0], i, key.T), key)) != -1 {
						all = false
					}
				}
				if all {
					return false
				}
			}
		}
	}
	if !f.bad && RetTuples != nil && !f.resultsPossible() {
		return false
	}
	return !f.bad
}

// RetVal abstracts one result of one return of a function: a set of constants,
// or whether it is nil.
type RetVal struct {
	Consts []*Term
	Nil    int // 1 nil, -1 not nil, 0 unknown
}

// RetTuples lists the possible results of a function, nil when unknown.
var RetTuples func(name string) [][]RetVal

// resultsPossible reports whether the results of every call the facts talk
// about can be the results of one return of the callee.
func (f *Facts) resultsPossible() bool {
	seen := map[string]bool{}
	ok := true
	see := func(t *Term) bool {
		if t.Op != "app" || !ok {
			return ok
		}
		name, multi := t.S, false
		if i := strings.LastIndexByte(name, '.'); i >= 0 && len(name) == i+2 && name[i+1] >= '0' && name[i+1] <= '9' {
			name, multi = name[:i], true
		}
		ts := RetTuples(name)
		if ts == nil {
			return true
		}
		id := name
		for _, a := range t.Args {
			id += fmt.Sprintf(",%d", a.id)
		}
		if seen[id] {
			return true
		}
		seen[id] = true
		ok = false
		for _, tup := range ts {
			good := true
			for i, rv := range tup {
				x := t
				if multi {
					if x = f.appNamed(fmt.Sprintf("%s.%d", name, i), t.Args); x == nil {
						continue
					}
				}
				if rv.Nil != 0 && f.atomNil(x) == -rv.Nil {
					good = false
				}
				if len(rv.Consts) > 0 {
					any := false
					for _, c := range rv.Consts {
						if f.Truth(Eq(x, c)) != -1 {
							any = true
						}
					}
					if !any {
						good = false
					}
				}
			}
			if good {
				ok = true
				break
			}
		}
		return ok
	}
	for t := range f.atoms {
		t.Walk(see)
		if !ok {
			return false
		}
	}
	return true
}

// appNamed finds a result the facts mention.
func (f *Facts) appNamed(name string, args []*Term) *Term {
	var out *Term
	for t := range f.atoms {
		t.Walk(func(x *Term) bool {
			if out == nil && x.Op == "app" && x.S == name && len(x.Args) == len(args) {
				same := true
				for i := range args {
					if x.Args[i] != args[i] {
						same = false
					}
				}
				if same {
					out = x
				}
			}
			return out == nil
		})
		if out != nil {
			return out
		}
	}
	return nil
}

// atomNil: 1 known nil, -1 known not nil.
func (f *Facts) atomNil(x *Term) int {
	for t, v := range f.atoms {
		if t.Op == "eq" && (t.Args[0] == x && t.Args[1].IsNil() || t.Args[1] == x && t.Args[0].IsNil()) {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

// Subst rewrites a term under the recorded equalities.
func (f *Facts) Subst(t *Term) *Term { return f.subst(t, map[*Term]*Term{}) }

func (f *Facts) subst(t *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = t
	if b, ok := f.bind[t]; ok {
		r := f.subst(b, memo)
		memo[t] = r
		return r
	}
	if intLike(t) && t.Op != "int" && t.Op != "lin" {
		if i, ok := f.idx[t]; ok {
			if f.d[i][0] < infty && f.d[i][0] == -f.d[0][i] {
				r := Int(f.d[i][0])
				memo[t] = r
				return r
			}
			// equal to an older zone variable (plus constant)
			for j := 1; j < len(f.vars); j++ {
				if j != i && f.vars[j].id < t.id && f.vars[j].Op != "lin" && f.d[i][j] < infty && f.d[i][j] == -f.d[j][i] {
					r := Add(f.vars[j], Int(f.d[i][j]))
					memo[t] = r
					return r
				}
			}
		}
	}
	if len(t.Args) == 0 {
		return t
	}
	as := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		as[i] = f.subst(a, memo)
		if as[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	r := Rebuild(t, as)
	memo[t] = r
	return r
}

// Rebuild reconstructs a term with new arguments through its smart constructor.
func Rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "lin":
		m := map[*Term]int64{}
		k := t.K
		for i, a := range as {
			am, ak := linOf(a)
			for v, c := range am {
				m[v] += c * t.Co[i]
			}
			k += ak * t.Co[i]
		}
		return mkLin(m, k)
	case "le0":
		return le0(as[0])
	case "eq0":
		return eq0(as[0])
	case "eq":
		return Eq(as[0], as[1])
	case "not":
		return Not(as[0])
	case "struct":
		return Struct(t.T, as)
	case "fld":
		return Field(as[0], int(t.K), t.T)
	case "len":
		return Len(as[0])
	case "seq":
		if isCopy(t.Args) {
			return CopyOf(t.T, flatParts(as))
		}
		return Seq(t.T, flatParts(as))
	case "cat":
		return Cat(as...)
	case "sub":
		return SubSeq(as[0], as[1], as[2])
	case "tostr":
		return ToStr(as[0])
	case "tobytes":
		return ToBytes(as[0])
	case "app":
		switch t.S {
		case "lower":
			return ToLower(as[0])
		case "itoa":
			return Itoa(as[0])
		case "op%", "op/":
			return App(t.S, t.T, as...)
		}
		if strings.HasPrefix(t.S, "fmt%") && !strings.Contains(t.S, "*") && len(as) == 1 && as[0].IsInt() {
			return Str(fmt.Sprintf(t.S[3:], as[0].K))
		}
	case "m0":
		if as[0].IsNil() {
			return mk(Term{Op: "mempty"})
		}
	case "aupd":
		if i := as[2]; i.Op == "index" && i.Args[0] == as[0] && i.Args[1] == as[1] {
			return as[0]
		}
	case "index":
		st := &State{F: NewFacts()}
		st.heap = map[*Term]*Term{}
		return st.Index(as[0], as[1], t.T)
	}
	n := *t
	n.Args = as
	return mk(n)
}

// Peeling is set while the first iterations of loops are compared one by one.
var Peeling bool

// NewFn reports whether a name is that of a function of the repository the
// reference does not have: a call to it that could not be looked through (it
// recurses) may do what the reference does in another way.
var NewFn = func(string) bool { return false }

// RefFn reports whether a name is that of a function of the reference.
var RefFn = func(string) bool { return false }

// RepoFn reports whether a name is that of a function of the repository.
var RepoFn = func(string) bool { return false }

// opaque reports whether a term contains something the analysis does not
// understand, so that a syntactic difference proves nothing.
func opaque(t *Term) bool {
	bad := false
	t.Walk(func(x *Term) bool {
		if x.Op == "app" {
			for _, p := range []string{"after", "ext", "cap", "copied", "mapafter", "dyn", "extract", "union"} {
				if strings.HasPrefix(x.S, p) && (len(x.S) > len(p) || p == "union") {
					bad = true
				}
			}
			switch x.S {
			case "op<", "op<=", "op>", "op>=", "repeat": // order of strings; a text of unknown length
				bad = true
			}
			if strings.HasPrefix(x.S, "fmt%") && strings.Contains(x.S, "*") {
				bad = true
			}
			if strings.Contains(x.S, "/") || strings.Contains(x.S, ".") && isLowerPkg(x.S) {
				bad = true
			}
		}
		if x.Op == "sym" && strings.HasPrefix(x.S, "?") {
			bad = true
		}
		if x.Op == "index" && x.Args[0].Op == "seq" {
			bad = true
		}
		if Peeling {
			if x.Op == "app" && (x.S == "sindex" || x.S == "slast" || x.S == "runes2str" || x.S == "join") {
				bad = true
			}
			switch x.Op {
			case "slicev", "slice", "zeroarr":
				bad = true
			}
		}
		return !bad
	})
	return bad
}

var understoodExt = map[string]bool{
	"dec.rune": true, "dec.size": true, "maps.Equal": true, "errors.New": true, "fmt.Errorf": true, "slices.Contains": true,
}

func isLowerPkg(s string) bool {
	if understoodExt[s] {
		return false
	}
	p := s[:strings.Index(s, ".")]
	switch p {
	case "strings", "bytes", "fmt", "strconv", "sort", "slices", "maps", "unicode", "errors", "math", "os", "io", "regexp", "rand":
		return true
	}
	return false
}

// cmpTerms compares two values under joint facts.
func cmpTerms(f *Facts, a, b *Term, d int) (Verdict, string) {
	if a == b {
		return Same, ""
	}
	if d > 60 {
		return Unknown, "too deep"
	}
	if x, y := f.Subst(a), f.Subst(b); x.Op == "app" && y.Op == "app" && x.S == "strconv.parseint" && y.S == x.S && x.Args[1].IsInt() && y.Args[1].IsInt() && x.Args[1] != y.Args[1] {
		// the same numeral read in two bases
		if v, _ := cmpTerms(f, x.Args[0], y.Args[0], d+1); v == Same && !x.Args[0].IsStr() {
			return Differs, fmt.Sprintf("%s instead of %s", x, y)
		}
	}
	if intLike(a) && intLike(b) {
		switch f.Truth(EqInt(a, b)) {
		case 1:
			return Same, ""
		case -1:
			return Differs, fmt.Sprintf("%s instead of %s", a, b)
		}
		sa, sb := f.Subst(a), f.Subst(b)
		if sa == sb || f.Truth(EqInt(sa, sb)) == 1 {
			return Same, ""
		}
		if f.sameEverywhere(sa, sb) {
			return Same, ""
		}
		ms := maybeSame(f, sa, sb, d)
		if ms == Same {
			return Same, ""
		}
		if opaque(sa) || opaque(sb) || !related(sa, sb) || ms == Unknown {
			return Unknown, fmt.Sprintf("%s vs %s", sa, sb)
		}
		return Differs, fmt.Sprintf("%s instead of %s", sa, sb)
	}
	sa, sb := f.Subst(a), f.Subst(b)
	if sa == sb {
		return Same, ""
	}
	a, b = sa, sb
	if sumAbove(a, b) || sumAbove(b, a) {
		return Differs, fmt.Sprintf("%s instead of %s", a, b)
	}
	if boolLike(a) && boolLike(b) {
		res := Same
		for _, x := range []bool{true, false} {
			g := f.Clone()
			if !g.Assume(a, x) || !g.Assume(b, !x) || !g.recheck() {
				continue
			}
			if opaque(a) || opaque(b) {
				res = Unknown
			} else {
				return Differs, fmt.Sprintf("%s instead of %s", a, b)
			}
		}
		if res == Same {
			return Same, ""
		}
		return Unknown, fmt.Sprintf("%s vs %s", a, b)
	}
	if isFn(a) && isFn(b) {
		if cmpFuncs != nil {
			return cmpFuncs(a, b)
		}
		return Unknown, "function values"
	}
	if mapsOf[0] != nil && (a.Op == "mapval") != (b.Op == "mapval") && !a.IsNil() && !b.IsNil() {
		// a map made on the way against one that was there: the same entries?
		entries := func(s *State, t *Term) *Term {
			if t.Op == "mapval" {
				return t.Args[0]
			}
			return s.heap[t]
		}
		if x, y := entries(mapsOf[0], a), entries(mapsOf[1], b); x != nil && y != nil {
			if v, _ := cmpTerms(f, mapsOf[0].Deep(x), mapsOf[1].Deep(y), d+1); v != Differs {
				return Unknown, "the same entries in another map"
			}
		}
	}
	if a.Op == b.Op && len(a.Args) == len(b.Args) {
		switch a.Op {
		case "struct", "ptrto", "tuple", "el", "spread", "iface", "seq", "arr", "mapval":
			if (a.Op == "iface" || a.Op == "struct") && a.T != nil && b.T != nil && typeKey(a.T) != typeKey(b.T) {
				if a.Op == "iface" && (ownPtr(a.T, b.T) || ownPtr(b.T, a.T)) {
					return Unknown, fmt.Sprintf("%s vs %s", a, b)
				}
				return Differs, fmt.Sprintf("%s instead of %s", a, b)
			}
			worst, why := Same, ""
			for i := range a.Args {
				v, w := cmpTerms(f, a.Args[i], b.Args[i], d+1)
				if v == Differs {
					if a.Op == "struct" {
						if st := StructType(a.T); st != nil {
							w = "field " + st.Field(i).Name() + ": " + w
						}
					}
					return Differs, w
				}
				if v == Unknown {
					worst, why = v, w
				}
			}
			return worst, why
		}
	}
	if a.Op == "struct" || b.Op == "struct" {
		s, o := a, b
		if s.Op != "struct" {
			s, o = b, a
		}
		if StructType(o.T) != nil {
			worst, why := Same, ""
			for i := range s.Args {
				v, w := cmpTerms(f, Field(a, i, nil), Field(b, i, nil), d+1)
				if v == Differs {
					return v, w
				}
				if v == Unknown {
					worst, why = v, w
				}
			}
			return worst, why
		}
	}
	if a.IsNil() && cutEmpty(b) || b.IsNil() && cutEmpty(a) {
		return Unknown, fmt.Sprintf("%s vs %s: both empty", a, b)
	}
	if a.IsNil() && neverNil(b) || b.IsNil() && neverNil(a) {
		return Differs, fmt.Sprintf("%s instead of %s", a, b)
	}
	// empty sequence vs nil
	if emptySeq(a) && emptySeq(b) {
		return Same, ""
	}
	if isMapContent(a) && isMapContent(b) {
		return cmpMaps(f, a, b, d)
	}
	if ca, cb := copied(a), copied(b); (ca == a) != (cb == b) && (a.Op != "seq" || b.Op != "seq") {
		v, why := cmpTerms(f, ca, cb, d+1)
		if v == Same {
			return Unknown, fmt.Sprintf("%s shared, not copied, or the other way round", ca)
		}
		return v, why
	}
	if a.Op == "seq" || b.Op == "seq" {
		pa, pb := seqParts(a), seqParts(b)
		if len(pa) == len(pb) {
			worst, why := Same, ""
			for i := range pa {
				v, w := cmpTerms(f, pa[i], pb[i], d+1)
				if v == Differs {
					return v, w
				}
				if v == Unknown {
					worst, why = v, w
				}
			}
			return worst, why
		}
		if onlyEls(pa) && onlyEls(pb) {
			return Differs, fmt.Sprintf("%d elements instead of %d: %s instead of %s", len(pa), len(pb), a, b)
		}
	}
	if f.Truth(Eq(a, b)) == 1 {
		return Same, ""
	}
	if a.Op == "app" && b.Op == "app" && a.S == "strings.Map" && b.S == a.S && len(a.Args) == 2 && len(b.Args) == 2 && isFn(a.Args[0]) && isFn(b.Args[0]) && cmpFuncs != nil {
		if v, _ := cmpTerms(f, a.Args[1], b.Args[1], d+1); v == Same {
			if v, w := cmpFuncs(a.Args[0], b.Args[0]); v != Unknown {
				return v, w
			}
		}
	}
	// Same application over equal arguments.
	if a.Op == b.Op && a.S == b.S && a.K == b.K && len(a.Args) == len(b.Args) && len(a.Args) > 0 && a.Op != "lin" && a.Op != "cat" {
		worst := Same
		for i := range a.Args {
			if v, _ := cmpTerms(f, a.Args[i], b.Args[i], d+1); v == Differs || worst == Same {
				worst = v
			}
		}
		if worst == Same {
			return Same, ""
		}
		if worst == Unknown {
			return Unknown, fmt.Sprintf("%s vs %s", a, b)
		}
	}
	if a.Op == "cat" && b.Op == "cat" && len(a.Args) == len(b.Args) {
		worst := Same
		for i := range a.Args {
			if v, _ := cmpTerms(f, a.Args[i], b.Args[i], d+1); v == Differs || worst == Same {
				worst = v
			}
			if worst == Differs {
				break
			}
		}
		if worst == Same {
			return Same, ""
		}
		if worst == Unknown {
			return Unknown, fmt.Sprintf("%s vs %s", a, b)
		}
	}
	if finalMem && (restored(a, b) || restored(b, a)) {
		return Differs, fmt.Sprintf("%s instead of %s", a, b)
	}
	if opaque(a) || opaque(b) || !related(a, b) || closedCall(a) != closedCall(b) || otherClosure(a, b) {
		return Unknown, fmt.Sprintf("%s vs %s", a, b)
	}
	return Differs, fmt.Sprintf("%s instead of %s", a, b)
}

// otherClosure: the terms call literals of one function that are numbered
// differently, as happens when a literal is added before them.
func otherClosure(a, b *Term) bool {
	names := func(t *Term) map[string]bool {
		out := map[string]bool{}
		t.Walk(func(x *Term) bool {
			if x.Op == "app" && strings.Contains(x.S, "$") {
				out[x.S] = true
			}
			return true
		})
		return out
	}
	na, nb := names(a), names(b)
	if len(na) == 0 || len(nb) == 0 {
		return false
	}
	for k := range na {
		if !nb[k] {
			return true
		}
	}
	return false
}

// ofCallee: what a call left behind, of which nothing is known here.
func ofCallee(t *Term) bool {
	found := false
	t.Walk(func(x *Term) bool {
		if x.Op == "app" && strings.HasPrefix(x.S, "after") {
			found = true
		}
		return !found
	})
	return found
}

// beyond: on the path of an outcome an element is read that a list in this
// region does not have.
func beyond(f *Facts, r *Outcome, ofCall bool) bool {
	bad := false
	see := func(x *Term) bool {
		if x.Op == "index" && (!ofCall || ofCallee(x.Args[0])) && x.Args[1].IsInt() && x.Args[0].Op != "seq" && f.Truth(Le(Len(x.Args[0]), x.Args[1])) == 1 {
			bad = true
		}
		return !bad
	}
	for _, t := range r.Ret {
		t.Walk(see)
	}
	for _, l := range r.St.F.order {
		l.T.Walk(see)
	}
	return bad
}

// ownPtr reports whether p is a pointer to the unexported type t: behind an
// interface callers cannot tell the two apart.
func ownPtr(p, t types.Type) bool {
	pt, ok := p.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && !n.Obj().Exported() && typeKey(pt.Elem()) == typeKey(t)
}

// maybeSame: two numbers that differ only in what they read, where it cannot
// be said whether the places read are the same.
func maybeSame(f *Facts, a, b *Term, d int) Verdict {
	ma, ka := linOf(a)
	mb, kb := linOf(b)
	for t, c := range ma {
		if mb[t] == c {
			delete(ma, t)
			delete(mb, t)
		}
	}
	if ka != kb || len(ma) != 1 || len(mb) != 1 {
		return Differs
	}
	res := Same
	for x, c := range ma {
		for y, e := range mb {
			if c != e || x.Op != y.Op || x.S != y.S || x.K != y.K || len(x.Args) != len(y.Args) || len(x.Args) == 0 {
				return Differs
			}
			for i := range x.Args {
				switch v, _ := cmpTerms(f, x.Args[i], y.Args[i], d+1); v {
				case Differs:
					return Differs
				case Unknown:
					res = Unknown
				}
			}
		}
	}
	return res
}

// closedCall: a function of the repository applied to constants, which is some
// constant that was not computed.
func closedCall(t *Term) bool {
	found := false
	t.Walk(func(x *Term) bool {
		if x.Op == "app" && len(x.Args) > 0 && RefFn(x.S) {
			closed := true
			for _, a := range x.Args {
				closed = closed && constOnly(a)
			}
			found = found || closed
		}
		return !found
	})
	return found
}

// sameEverywhere evaluates two expressions over one quantity at every value
// the facts leave it, when these are few.
func (f *Facts) sameEverywhere(a, b *Term) bool {
	var leaf *Term
	var find func(t *Term) bool
	find = func(t *Term) bool {
		switch {
		case t.IsInt():
			return true
		case t.Op == "lin" || t.Op == "app" && strings.HasPrefix(t.S, "op"):
			for _, x := range t.Args {
				if !find(x) {
					return false
				}
			}
			return true
		}
		if leaf == nil {
			leaf = t
		}
		return leaf == t
	}
	if !find(a) || !find(b) || leaf == nil {
		return false
	}
	lo, ok := f.Lower(leaf)
	hi, ok2 := f.Lower(Scale(leaf, -1))
	hi = -hi
	if !ok || !ok2 || lo > hi || hi-lo > 512 {
		return false
	}
	for v := lo; v <= hi; v++ {
		x, ok := evalAt(a, leaf, v)
		y, ok2 := evalAt(b, leaf, v)
		if !ok || !ok2 || x != y {
			return false
		}
	}
	return true
}

func evalAt(t, leaf *Term, v int64) (int64, bool) {
	switch {
	case t == leaf:
		return v, true
	case t.IsInt():
		return t.K, true
	case t.Op == "lin":
		s := t.K
		for i, x := range t.Args {
			y, ok := evalAt(x, leaf, v)
			if !ok {
				return 0, false
			}
			s += t.Co[i] * y
		}
		return s, true
	case t.Op == "app" && len(t.Args) == 2:
		x, ok := evalAt(t.Args[0], leaf, v)
		y, ok2 := evalAt(t.Args[1], leaf, v)
		if !ok || !ok2 || x < 0 || y < 0 {
			return 0, false
		}
		switch t.S {
		case "op|":
			return x | y, true
		case "op&":
			return x & y, true
		case "op^":
			return x ^ y, true
		case "op&^":
			return x &^ y, true
		case "op<<":
			return x << uint(y), y < 40
		case "op>>":
			return x >> uint(y), y < 40
		case "op/":
			if y == 0 {
				return 0, false
			}
			return x / y, true
		case "op%":
			if y == 0 {
				return 0, false
			}
			return x % y, true
		}
	}
	return 0, false
}

// sumAbove: a is b plus something else, in arbitrary precision.
func sumAbove(a, b *Term) bool {
	if a.Op != "app" || a.S != "math/big.Int.Add" || len(a.Args) != 2 {
		return false
	}
	for i, x := range a.Args {
		y := a.Args[1-i]
		if x == b && !(y.Op == "app" && y.S == "math/big.NewInt" && y.Args[0].IsInt() && y.Args[0].K == 0) {
			return true
		}
	}
	return false
}

// neverNil: an interface that holds something, as an error just made does.
func neverNil(t *Term) bool {
	if t.Op == "iface" {
		return true
	}
	return t.Op == "app" && (t.S == "fmt.Errorf" || t.S == "errors.New")
}

// swallowed: the code answers nil where the reference hands on the error of a
// library call that the code ran and whose failure it never looks at.
func swallowed(f *Facts, c, r *Outcome, a, b *Term) bool {
	if !a.IsNil() || b.Op != "app" || b.T == nil || b.T.String() != "error" || RepoFn(b.S) || neverNil(b) {
		return false
	}
	if !strings.Contains(b.S, "/") && !strings.Contains(b.S, ".") || f.Truth(Eq(b, mk(Term{Op: "nil"}))) == 1 || f.atomNil(b) == 1 {
		return false
	}
	// the code checks some other call instead
	for t := range c.St.F.atoms {
		if _, ok := r.St.F.atoms[t]; ok || t.Op != "eq" && t.Op != "app" {
			continue
		}
		for i := range t.Args {
			if t.Args[i].IsNil() {
				return false
			}
		}
	}
	return true
}

func onlyEls(ps []*Term) bool {
	for _, p := range ps {
		if p.Op != "el" {
			return false
		}
	}
	return true
}

// InternalFn is set while a function only the package itself calls is compared.
var InternalFn bool

// failing: the path ends with an error.
func failing(f *Facts, o *Outcome) bool {
	if len(o.Ret) == 0 {
		return false
	}
	e := o.Ret[len(o.Ret)-1]
	return e.T != nil && e.T.String() == "error" && neverNil(f.Subst(e)) || neverNil(e) || f.Truth(Eq(e, Nil())) == -1
}

// finalMem is set while the memory two paths leave behind is compared.
var finalMem bool

// restored: x is what a field held before a call, y what the call left in it;
// a path that ends with the former undoes the effect of the call.
func restored(x, y *Term) bool {
	if y.Op != "app" || !strings.HasPrefix(y.S, "after") || len(y.Args) != 1 || x.Op != "fld" {
		return false
	}
	i := strings.IndexByte(y.S, '.')
	if i < 0 || y.S[i+1:] != x.S {
		return false
	}
	d := x.Args[0]
	return d.Op == "deref" && d.Args[0] == y.Args[0]
}

func isFn(t *Term) bool { return t.Op == "func" || t.Op == "closure" }

// cmpFuncs compares two function values in the outcome being compared.
var cmpFuncs func(a, b *Term) (Verdict, string)

// funcCmp compares function values by interpreting their bodies from the
// states in which they are observed.
func funcCmp(cur, ref *Interp, cs, rs *State, depth int) func(a, b *Term) (Verdict, string) {
	return func(a, b *Term) (Verdict, string) {
		fa, fb := a.Fn, b.Fn
		if fa == fb {
			return Same, ""
		}
		if FuncKey(fa) == FuncKey(fb) && fa.Parent() == nil && fb.Parent() == nil {
			return Same, ""
		}
		if depth > 2 {
			return Unknown, "nested function values"
		}
		if !types.Identical(fa.Signature, fb.Signature) {
			return Unknown, "function values of different types"
		}
		args := make([]*Term, len(fb.Params))
		for i, p := range fb.Params {
			args[i] = Sym(fmt.Sprintf("arg%d.%d", depth, i), p.Type())
		}
		sub := func(in *Interp, t *Term, st *State) *Interp {
			n := &Interp{Prog: in.Prog, Policy: in.Policy, Summary: in.Summary, TouchOf: in.TouchOf, Consts: in.Consts, Local: in.Local, Peel: in.Peel, MaxSteps: 100000, MaxDepth: in.MaxDepth, RecClosures: in.RecClosures}
			n.init()
			s := st.Clone()
			s.Trace = nil
			s.Loops = nil
			n.base = st.heap
			n.call(nil, t.Fn, args, t.Args, s, func(st *State, ret []*Term, pos token.Pos) {
				n.emit(&Outcome{Kind: "return", Ret: ret, St: st, Pos: pos, Fn: t.Fn})
			})
			return n
		}
		ci, ri := sub(cur, a, cs), sub(ref, b, rs)
		worst, why := Same, ""
		for _, d := range compare(ci, ri, depth+1) {
			if d.V == Differs {
				return Differs, "function value: " + d.What
			}
			worst, why = d.V, d.What
		}
		return worst, why
	}
}

// Deadline bounds the time spent on one function.
var Deadline time.Time

// MaxHeap bounds the memory one function's analysis may reach.
const MaxHeap = 5 << 30

var (
	heapSample = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	timeChecks int
)

// CheckTime gives up on the function under analysis when its time is over, or
// when it has taken more memory than it may.
func CheckTime() {
	if Deadline.IsZero() {
		return
	}
	if time.Now().After(Deadline) {
		panic("time budget")
	}
	if timeChecks++; timeChecks&15 == 0 {
		metrics.Read(heapSample)
		if heapSample[0].Value.Uint64() > MaxHeap {
			runtime.GC()
			metrics.Read(heapSample)
			if heapSample[0].Value.Uint64() > MaxHeap*3/4 {
				panic("memory budget")
			}
		}
	}
}

// nilEntry reports whether f has a map entry that is present and nil at once,
// which is not real for a map whose values are never nil.
func nilEntry(f *Facts) bool {
	for t, v := range f.atoms {
		if v && t.Op == "eq" {
			for i := range t.Args {
				m := t.Args[i]
				if !t.Args[1-i].IsNil() || m.IsNil() {
					continue
				}
				if m.Op == "app" && m.S == "mget" && f.Truth(MHas(m.Args[0], m.Args[1])) == 1 {
					return true
				}
				// nil, and yet read on the way
				for _, l := range f.order {
					if l.T != t && reads(l.T, m, map[*Term]bool{}) {
						return true
					}
				}
			}
		}
	}
	return false
}

// twice: of a list of names a function is given two elements are equal, as the
// members of a set are not, or the name given along with it is none of them.
func twice(f *Facts) bool {
	member := func(t *Term) bool {
		return t.Op == "index" && t.Args[0].Op == "sym" && t.Args[1].IsInt() && t.T != nil && types.Identical(t.T.Underlying(), types.Typ[types.String])
	}
	of := map[*Term]*Term{}
	type pair struct{ name, list *Term }
	isNot := map[pair]int{}
	for t, v := range f.atoms {
		if t.Op != "eq" {
			continue
		}
		x, y := t.Args[0], t.Args[1]
		if v && x != y && member(x) && member(y) && x.Args[0] == y.Args[0] {
			return true
		}
		for i := range t.Args {
			m, o := t.Args[i], t.Args[1-i]
			if !member(m) || member(o) {
				continue
			}
			if !v {
				if o.Op == "sym" {
					isNot[pair{o, m.Args[0]}]++
				}
				continue
			}
			if p := of[o]; p != nil && p != m && p.Args[0] == m.Args[0] {
				return true
			}
			of[o] = m
		}
	}
	for p, n := range isNot {
		if f.Truth(EqInt(Len(p.list), Int(int64(n)))) == 1 {
			return true
		}
	}
	return false
}

// foldClash: what is known of a string and of its lower case contradict each
// other. No letter but the two cases of an ASCII letter folds to it, 'i' and
// 'k' excepted.
func foldClash(f *Facts) bool {
	other := func(t *Term) (l, x *Term) {
		for i := range t.Args {
			if t.Args[i].IsStr() {
				return t.Args[i], t.Args[1-i]
			}
		}
		return nil, nil
	}
	for t, v := range f.atoms {
		if t.Op != "eq" {
			continue
		}
		lit, x := other(t)
		if lit == nil {
			continue
		}
		if x.IsApp("lower") && v && len(lit.S) == 1 && lit.S[0] >= 'a' && lit.S[0] <= 'z' && lit.S != "i" && lit.S != "k" {
			y := x.Args[0]
			if f.Truth(Eq(y, lit)) == -1 && f.Truth(Eq(y, Str(strings.ToUpper(lit.S)))) == -1 {
				return true
			}
		}
		if v && !x.IsApp("lower") {
			if f.Truth(Eq(ToLower(x), Str(strings.ToLower(lit.S)))) == -1 {
				return true
			}
		}
	}
	return false
}

// reads: t depends on what p points to.
func reads(t, p *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == "deref" && t.Args[0] == p {
		return true
	}
	for _, a := range t.Args {
		if reads(a, p, seen) {
			return true
		}
	}
	return false
}

// CompareClosures compares closures that call themselves on arbitrary
// captured variables, which the calls made by the enclosing function do not
// cover.
func CompareClosures(cur, ref *Interp) (Verdict, string) {
	if len(cur.RecClosures) == 1 && len(ref.RecClosures) == 1 {
		for ka, a := range cur.RecClosures {
			for _, b := range ref.RecClosures {
				v, w := closureCmp(cur, ref, a, b)
				if v != Same {
					w = "recursive closure " + ka + ": " + w
				}
				return v, w
			}
		}
	}
	for k := range cur.RecClosures {
		if ref.RecClosures[k] == nil {
			return Unknown, "recursive closures differ"
		}
	}
	for k, b := range ref.RecClosures {
		a := cur.RecClosures[k]
		if a == nil {
			return Unknown, "recursive closures differ"
		}
		if v, w := closureCmp(cur, ref, a, b); v != Same {
			return Unknown, "recursive closure " + k + ": " + w
		}
	}
	return Same, ""
}

func closureCmp(cur, ref *Interp, a, b *ssa.Function) (Verdict, string) {
	if !types.Identical(a.Signature, b.Signature) || len(a.FreeVars) != len(b.FreeVars) {
		return Unknown, "signature"
	}
	args := make([]*Term, len(b.Params))
	for i, p := range b.Params {
		args[i] = Sym(fmt.Sprintf("arg.%d", i), p.Type())
	}
	fb := make([]*Term, len(b.FreeVars))
	fa := make([]*Term, len(a.FreeVars))
	used := make([]bool, len(b.FreeVars))
	named := true
	for i, p := range b.FreeVars {
		fb[i] = Sym("free."+p.Name(), p.Type())
	}
	same := func(x, y types.Type) bool { return x.String() == y.String() }
	for i, p := range a.FreeVars {
		for j, q := range b.FreeVars {
			if fa[i] == nil && !used[j] && p.Name() == q.Name() && same(p.Type(), q.Type()) {
				fa[i], used[j] = fb[j], true
			}
		}
	}
	for i, p := range a.FreeVars {
		for j, q := range b.FreeVars {
			if fa[i] == nil && !used[j] && same(p.Type(), q.Type()) {
				fa[i], used[j], named = fb[j], true, false
			}
		}
		if fa[i] == nil {
			return Unknown, "captured variables"
		}
	}
	sub := func(in *Interp, fn *ssa.Function, free []*Term) *Interp {
		n := &Interp{Prog: in.Prog, Policy: in.Policy, Summary: in.Summary, TouchOf: in.TouchOf, Consts: in.Consts, Local: in.Local, MaxSteps: 200000, MaxDepth: in.MaxDepth}
		n.init()
		n.call(nil, fn, args, free, NewState(), func(st *State, ret []*Term, pos token.Pos) {
			n.emit(&Outcome{Kind: "return", Ret: ret, St: st, Pos: pos, Fn: fn})
		})
		return n
	}
	ds := compare(sub(cur, a, fa), sub(ref, b, fb), 0)
	for _, d := range ds {
		if d.V == Differs && named {
			return Differs, d.What
		}
	}
	if len(ds) > 0 {
		return Unknown, ds[0].What
	}
	return Same, ""
}

// DebugRoots prints the memory compared.
var DebugRoots bool

func emptySeq(t *Term) bool {
	return t.IsNil() || t.Op == "seq" && len(t.Args) == 0 || t.Op == "mempty" ||
		t.Op == "tobytes" && t.Args[0].IsStr() && t.Args[0].S == ""
}

// cutEmpty: a slice cut down to no elements, whose room may be used again, or
// a map without entries.
func cutEmpty(t *Term) bool {
	if t.Op == "mapval" && t.Args[0].Op == "mempty" {
		return true
	}
	return (t.Op == "slice" || t.Op == "slicev" || t.Op == "sub") && len(t.Args) == 3 && t.Args[1].IsInt() && t.Args[2].IsInt() && t.Args[1] == t.Args[2]
}

func boolLike(t *Term) bool {
	switch t.Op {
	case "bool", "not", "le0", "eq0", "eq":
		return true
	}
	return isBoolType(t.T)
}

func isMapContent(t *Term) bool {
	switch t.Op {
	case "mempty", "mupd", "mdel", "m0":
		return true
	}
	return false
}

// mapsOf holds the states of the two outcomes whose memory is compared.
var mapsOf [2]*State

// dropped: the map is no longer what the place it was found at holds.
func dropped(s *State, m *Term) bool {
	if m.Op != "fld" || len(m.Args) != 1 || m.Args[0].Op != "deref" {
		return false
	}
	c, ok := s.heap[m.Args[0].Args[0]]
	return ok && Field(c, int(m.K), m.T) != m
}

// cmpMaps compares update chains regardless of the order of independent updates.
// has decides presence of a key, up to known equalities.
func (f *Facts) has(c, k *Term) int {
	q := MHas(c, k)
	if v := f.Truth(q); v != 0 {
		return v
	}
	q = f.Subst(q)
	if v := f.Truth(q); v != 0 {
		return v
	}
	for t, v := range f.atoms {
		if t.Op == "app" && t.S == "mhas" && f.Subst(t) == q {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

func cmpMaps(f *Facts, a, b *Term, d int) (Verdict, string) {
	type upd struct{ k, v *Term }
	flat := func(t *Term) (base *Term, us []upd, ok bool) {
		ok = true
		for t.Op == "mupd" || t.Op == "mdel" {
			var v *Term
			if t.Op == "mupd" {
				v = t.Args[2]
			}
			shadow := false
			for _, u := range us {
				if f.Truth(Eq(u.k, t.Args[1])) == 1 || f.Subst(u.k) == f.Subst(t.Args[1]) {
					shadow = true
				}
			}
			if !shadow {
				us = append(us, upd{t.Args[1], v})
			}
			t = t.Args[0]
		}
		return t, us, ok
	}
	// A map every key of which was deleted is an empty one.
	drained := func(base *Term, us []upd) (*Term, []upd) {
		if base.Op != "m0" {
			return base, us
		}
		n, ok := f.Exact(Len(base))
		if !ok {
			return base, us
		}
		seen := map[*Term]bool{}
		var rest []upd
		for _, u := range us {
			if u.v == nil && u.k.Op == "app" && u.k.S == "mkey" && f.Subst(u.k.Args[0]) == f.Subst(base) {
				seen[u.k] = true
				continue
			}
			rest = append(rest, u)
		}
		if int64(len(seen)) != n {
			return base, us
		}
		return mk(Term{Op: "mempty"}), rest
	}
	ba, ua, _ := flat(a)
	bb, ub, _ := flat(b)
	ba, ua = drained(ba, ua)
	bb, ub = drained(bb, ub)
	if v, w := Same, ""; ba != bb {
		if v, w = cmpTerms0(f, ba, bb); v != Same {
			if (ba.Op == "mempty") != (bb.Op == "mempty") && (len(ua) > 0 || len(ub) > 0) && v == Differs {
				v = Unknown
			}
			return v, "map contents: " + w
		}
	}
	used := make([]bool, len(ub))
	maybe := false
	for _, x := range ua {
		found := false
		for j, y := range ub {
			if used[j] {
				continue
			}
			v, _ := cmpTerms(f, x.k, y.k, d+1)
			if v == Unknown {
				maybe = true
			}
			if v == Same {
				used[j] = true
				found = true
				if x.v == nil || y.v == nil {
					if x.v != y.v {
						// absent reads as the zero value
						if z := x.v; (z == nil || z.IsBool() && !z.True()) && (y.v == nil || y.v.IsBool() && !y.v.True()) {
							return Unknown, fmt.Sprintf("map entry %s", x.k)
						}
						return Differs, fmt.Sprintf("map entry %s", x.k)
					}
					break
				}
				if v, w := cmpTerms(f, x.v, y.v, d+1); v != Same {
					return v, fmt.Sprintf("map entry %s: %s", x.k, w)
				}
				break
			}
		}
		if !found {
			// an update that writes what is already there
			if x.v != nil && x.v.True() && f.has(bb, x.k) == 1 {
				continue
			}
			if x.v == nil && f.has(bb, x.k) == -1 {
				continue
			}
			if maybe {
				return Unknown, fmt.Sprintf("map entry %s", x.k)
			}
			return Differs, fmt.Sprintf("map entry %s is written only in the code under analysis", x.k)
		}
	}
	for j, y := range ub {
		if !used[j] {
			if y.v != nil && y.v.True() && f.has(ba, y.k) == 1 {
				continue
			}
			if y.v == nil && f.has(ba, y.k) == -1 {
				continue
			}
			if maybe {
				return Unknown, fmt.Sprintf("map entry %s", y.k)
			}
			return Differs, fmt.Sprintf("map entry %s is not written", y.k)
		}
	}
	return Same, ""
}

func cmpTerms0(f *Facts, a, b *Term) (Verdict, string) {
	if a == b {
		return Same, ""
	}
	a, b = f.Subst(a), f.Subst(b)
	if a == b {
		return Same, ""
	}
	if opaque(a) || opaque(b) {
		return Unknown, fmt.Sprintf("%s vs %s", a, b)
	}
	return Differs, fmt.Sprintf("%s instead of %s", a, b)
}

// roots returns the pre-existing objects whose content the state tracks.
func (s *State) roots() map[*Term]*Term {
	out := map[*Term]*Term{}
	for r, v := range s.heap {
		if r.Op == "ref" || r.Op == "mapref" || r.Op == "seq" || r.Op == "cat" || r.Op == "tobytes" {
			continue
		}
		if r.Op == "bld" && Root(r.Args[0]).Op == "ref" {
			continue
		}
		if t := s.types[r]; t != nil && v == s.applyHavocs(r, mk(Term{Op: "deref", Args: []*Term{r}, T: t}), t) {
			continue
		}
		out[r] = v
	}
	return out
}

// temps returns the slices built on the way whose elements were written.
func (s *State) temps() map[*Term]*Term {
	out := map[*Term]*Term{}
	for r, v := range s.heap {
		switch r.Op {
		case "seq", "cat", "tobytes":
			if v != r {
				out[r] = v
			}
		}
	}
	return out
}

func (s *State) rootContent(r *Term, other *State) *Term {
	if v, ok := s.heap[r]; ok {
		return s.Deep(v)
	}
	if isMap(r.T) {
		return s.mapContent(r)
	}
	if r.Op == "bld" {
		return App("bld0", tString, r.Args[0])
	}
	if isSliceLike(r) {
		return r
	}
	return s.content(r, other.types[r])
}

// calls lists the effectful events of a trace.
func (o *Outcome) calls() []Event {
	var out []Event
	for _, e := range o.St.Trace {
		if e.Kind == "call" || e.Kind == "mapcopy" {
			out = append(out, e)
		}
	}
	return out
}

// SelfKey names the function whose first iterations are compared. Whether it
// calls itself once more or less there may not matter.
var SelfKey string

func cmpEvents(f *Facts, a, b []Event) (Verdict, string) {
	worst, why := Same, ""
	used := make([]bool, len(b))
	for _, x := range a {
		best, bw, bj := Differs, "", -1
		seen := false
		for j, y := range b {
			if used[j] || x.Name != y.Name || x.Kind != y.Kind || len(x.Args) != len(y.Args) {
				continue
			}
			seen = true
			v, w := Same, ""
			for i := range x.Args {
				vi, wi := cmpTerms(f, x.Args[i], y.Args[i], 0)
				if vi == Differs {
					v, w = vi, fmt.Sprintf("argument %d of %s: %s", i, x.Name, wi)
					break
				}
				if vi == Unknown {
					v, w = vi, wi
				}
			}
			if v == Same {
				v, w = cmpSnaps(f, x, y)
			}
			if v == Same {
				best, bj = Same, j
				break
			}
			if v == Unknown || bj < 0 {
				best, bw = v, w
				if v == Unknown {
					bj = j
				}
			}
		}
		if best == Same {
			used[bj] = true
			continue
		}
		if best == Unknown {
			used[bj] = true
			worst, why = Unknown, bw
			continue
		}
		if !seen {
			bw = fmt.Sprintf("extra call %s", x)
		}
		if Peeling && (x.Kind == "mapcopy" || !seen && !RepoFn(x.Name) || x.Name == SelfKey) {
			return Unknown, bw
		}
		if !seen && x.Kind == "call" && NewFn(x.Name) {
			return Unknown, bw
		}
		return Differs, bw
	}
	for j, y := range b {
		if !used[j] {
			closed := y.Kind == "call" && len(y.Args) > 0 && RefFn(y.Name)
			for _, t := range y.Args {
				closed = closed && constOnly(t)
			}
			if closed || Peeling && (y.Kind == "mapcopy" || !RepoFn(y.Name) || y.Name == SelfKey) {
				return Unknown, fmt.Sprintf("missing call %s", y)
			}
			return Differs, fmt.Sprintf("missing call %s", y)
		}
	}
	return worst, why
}

// cmpSnaps compares the memory two calls can look at.
func cmpSnaps(f *Facts, x, y Event) (Verdict, string) {
	keys := map[*Term]bool{}
	for k := range x.Snap {
		keys[k] = true
	}
	for k := range y.Snap {
		keys[k] = true
	}
	var ks []*Term
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	worst, why := Same, ""
	for _, k := range ks {
		a, b := x.Snap[k], y.Snap[k]
		init := func(o *Term) *Term {
			root := k.Args[0]
			if k.K < 0 {
				return mk(Term{Op: "m0", Args: []*Term{root}, T: root.T})
			}
			return mk(Term{Op: "unwritten", Args: []*Term{k}, T: o.T})
		}
		if a == nil {
			a = init(b)
		}
		if b == nil {
			b = init(a)
		}
		v, w := cmpTerms(f, a, b, 0)
		if v == Same {
			continue
		}
		if v == Differs && (opaque(a) || opaque(b)) {
			v = Unknown
		}
		w = fmt.Sprintf("memory seen by %s: %s", x.Name, w)
		if v == Differs {
			return v, w
		}
		worst, why = v, w
	}
	return worst, why
}

func cmpLoops(f *Facts, a, b *Outcome) (Verdict, string) {
	la, lb := a.St.Loops, b.St.Loops
	if len(la) != len(lb) {
		return Unknown, "different loop nesting"
	}
	for i := range la {
		x, y := la[i], lb[i]
		xs, ys := nonLin(x), nonLin(y)
		if len(xs) != len(ys) {
			return Unknown, fmt.Sprintf("loop %d carries different state", x.Ord)
		}
		for j := range xs {
			if xs[j] != ys[j] {
				return Unknown, fmt.Sprintf("loop %d starts from different state", x.Ord)
			}
		}
		if len(x.Heap) != len(y.Heap) {
			return Unknown, fmt.Sprintf("loop %d modifies different memory", x.Ord)
		}
	}
	return Same, ""
}

func nonLin(l *Loop) []string {
	var out []string
	for _, p := range l.Phis {
		if !p.Lin {
			out = append(out, p.Sym.S)
		}
	}
	sort.Strings(out)
	return out
}

// Compare checks that two summaries agree on every common region.
func Compare(cur, ref *Interp) []Diff { return compare(cur, ref, 0) }

func compare(cur, ref *Interp, depth int) []Diff {
	var diffs []Diff
	var pending [][2]*Outcome
	n := 0
	saved := cmpFuncs
	defer func() { cmpFuncs = saved }()
	if len(ref.Undecided) > 0 {
		return []Diff{{V: Unknown, What: "reference: " + ref.Undecided[0]}}
	}
	for _, c := range cur.Outcomes {
		met := Peeling
		if !met && !c.St.F.Clone().recheck() {
			continue
		}
		for _, r := range ref.Outcomes {
			if n++; n&63 == 0 {
				CheckTime()
			}
			if c.St.F.clashes(r.St.F) {
				continue
			}
			f := c.St.F.Clone()
			if !f.join(r.St.F) || foldClash(f) {
				continue
			}
			met = true
			cmpFuncs = funcCmp(cur, ref, c.St, r.St, depth)
			v, why := cmpOutcome(f, c, r)
			if v == Same {
				continue
			}
			hopeful := false
			if v == Differs && (beyond(f, r, false) || beyond(f, c, true)) {
				v, why = Unknown, why+" (the reference reads beyond a list here)"
			}
			if v == Differs {
				if ok, w := definite(f, c.St.F, r.St.F); !ok {
					hopeful = Peeling
					v, why = Unknown, why+" (region not known to be reachable: "+w+")"
				}
			}
			var as []string
			for _, l := range f.order {
				s := l.T.String()
				if !l.Pos {
					s = "not " + s
				}
				as = append(as, s)
			}
			for t, d := range f.dyn {
				as = append(as, fmt.Sprintf("%s is %s", t, types.TypeString(d, func(*types.Package) string { return "" })))
			}
			diffs = append(diffs, Diff{V: v, What: why, Cur: c, Ref: r, Assumption: uniq(as)})
			if Peeling && v == Differs {
				return diffs
			}
			if hopeful {
				pending = append(pending, [2]*Outcome{c, r})
			}
		}
		if !met {
			diffs = append(diffs, Diff{V: Unknown, What: "a path that corresponds to none of the reference", Cur: c})
		}
	}
	for _, u := range cur.Undecided {
		diffs = append(diffs, Diff{V: Unknown, What: u})
	}
	if len(cur.Undecided) == 0 && len(pending) > 0 {
		if d := everyWay(cur, ref, pending, depth); d != nil {
			diffs = append(diffs, *d)
		}
	}
	return diffs
}

var DebugEW = os.Getenv("DEBUGEW") != ""

// everyWay looks for a region of a path of the reference, delimited only by
// quantities that path is itself about, in which whatever the current code
// goes on to do differs from the reference.
func everyWay(cur, ref *Interp, pending [][2]*Outcome, depth int) *Diff {
	tried := map[string]bool{}
	start := time.Now()
	for _, p := range pending {
		if len(tried) >= 60 || time.Since(start) > 6*time.Second {
			return nil
		}
		CheckTime()
		c, r := p[0], p[1]
		q := region(c.St.F, r.St.F)
		if len(q) == 0 {
			continue
		}
		id := fmt.Sprintf("%p", r)
		f := r.St.F.Clone()
		ok := true
		for _, l := range q {
			id += fmt.Sprintf(" %d%v", l.T.ID(), l.Pos)
			ok = ok && f.Assume(l.T, l.Pos)
		}
		if tried[id] || !ok || nilEntry(f) || twice(f) {
			continue
		}
		tried[id] = true
		ok = true
		for _, cut := range cur.Cut {
			if cut.clashes(f) {
				continue
			}
			g := cut.Clone()
			if g.join(f) {
				ok = false
				if DebugEW {
					fmt.Println("        everyWay: cut", g.order)
				}
				break
			}
		}
		why := ""
		for _, o := range cur.Outcomes {
			if !ok {
				break
			}
			if o.St.F.clashes(f) {
				continue
			}
			g := o.St.F.Clone()
			if !g.join(f) || nilEntry(g) {
				continue
			}
			cmpFuncs = funcCmp(cur, ref, o.St, r.St, depth)
			v, w := cmpOutcome(g, o, r)
			ok = v == Differs
			if !ok && DebugEW {
				fmt.Println("        everyWay:", v, w, g.order)
			}
			why = w
		}
		if ok && why != "" {
			var as []string
			for _, l := range f.order {
				s := l.T.String()
				if !l.Pos {
					s = "not " + s
				}
				as = append(as, s)
			}
			return &Diff{V: Differs, What: "whatever follows: " + why, Cur: c, Ref: r, Assumption: uniq(as)}
		}
	}
	return nil
}

// region returns the conditions c adds to r that are about quantities r is
// about, when together they are known to be reachable with r.
func region(c, r *Facts) []Lit {
	lr, br := map[string]bool{}, map[string]bool{}
	for _, l := range r.order {
		if t := c.Truth(l.T); t == 1 && l.Pos || t == -1 && !l.Pos {
			continue
		}
		weakLeaves(l.T, lr)
		baseLeaves(l.T, br)
	}
	for t, d := range r.dyn {
		if bd, ok := c.dyn[t]; !ok || !types.Identical(bd, d) {
			weakLeaves(t, lr)
			baseLeaves(t, br)
		}
	}
	var q []Lit
	lq, bq := map[string]bool{}, map[string]bool{}
next:
	for _, l := range c.order {
		if t := r.Truth(l.T); t == 1 && l.Pos || t == -1 && !l.Pos {
			continue
		}
		w := map[string]bool{}
		weakLeaves(l.T, w)
		for k := range w {
			if !lr[k] {
				continue next
			}
		}
		for k := range w {
			lq[k] = true
		}
		baseLeaves(l.T, bq)
		q = append(q, l)
	}
	for k := range lr {
		if !lq[k] && (opaque(mk(Term{Op: "app", S: k})) || RepoFn(k)) {
			return nil
		}
	}
	sub := func(a, b map[string]bool) bool {
		for k := range a {
			if !b[k] {
				return false
			}
		}
		return true
	}
	if len(lr)+len(lq) > 0 && !(sub(lr, lq) && sub(br, bq)) && !sub(bq, br) {
		return nil
	}
	return q
}

// weakLeaves collects what a term says about quantities whose relations the
// domain may not know: loop cells, iteration counts, memory after opaque calls
// and results of functions that are not understood.
func weakLeaves(t *Term, out map[string]bool) {
	t.Walk(func(x *Term) bool {
		switch {
		case x.Op == "sym":
			s := x.S
			if len(s) > 1 && (s[0] == 'L' || s[0] == 'H' || s[0] == 'D') && s[1] >= '0' && s[1] <= '9' || strings.HasPrefix(s, "n#") || strings.HasPrefix(s, "key#") || strings.HasPrefix(s, "?") {
				out[s] = true
			}
		case x.Op == "app":
			one := mk(Term{Op: "app", S: x.S})
			if opaque(one) || Peeling && RepoFn(x.S) {
				out[x.S] = true
			}
			if x.S == "sindex" || x.S == "slast" {
				out[x.Args[1].S] = true
			}
		case x.Op == "index" && x.Args[0].Op == "seq":
			out[fmt.Sprintf("?%d", x.id)] = true
		case x.Op == "iter":
			out["iter"] = true
		}
		return true
	})
}

// definite reports whether the common region of two paths is certainly
// reachable when each path is: one path's conditions include the other's, or
// what they add to each other is about the same, or independent, quantities.
func definite(f, c, r *Facts) (bool, string) {
	extra := func(a, b *Facts) (bool, map[string]bool, map[string]bool) {
		ls, bs := map[string]bool{}, map[string]bool{}
		any := false
		for _, l := range a.order {
			if l.Exit {
				continue
			}
			t := b.Truth(l.T)
			if t == 1 && l.Pos || t == -1 && !l.Pos {
				continue
			}
			any = true
			weakLeaves(l.T, ls)
			baseLeaves(l.T, bs)
		}
		for t, d := range a.dyn {
			if bd, ok := b.dyn[t]; !ok || !types.Identical(bd, d) {
				any = true
				weakLeaves(t, ls)
				baseLeaves(t, bs)
			}
		}
		for t, ds := range a.ndyn {
			for _, d := range ds {
				if !b.NotDyn(t, d) {
					any = true
					weakLeaves(t, ls)
					baseLeaves(t, bs)
				}
			}
		}
		return any, ls, bs
	}
	if nilEntry(f) {
		return false, "present but nil map entry"
	}
	if twice(f) {
		return false, "a name twice in a list of names"
	}
	for _, p := range [][2]*Facts{{c, r}, {r, c}} {
		if a := foreign(p[0], p[1]); a != "" {
			return false, a
		}
	}
	ac, lc, bc := extra(c, r)
	ar, lr, br := extra(r, c)
	// the values of command-line options that are set are free
	if !optionUnset(f) {
		for _, m := range []map[string]bool{lc, lr} {
			for k := range m {
				if strings.Contains(k, "urfave/cli/v2.Context.") {
					delete(m, k)
				}
			}
		}
	}
	if !ac || !ar || len(lc) == 0 && len(lr) == 0 {
		return true, ""
	}
	within := func(a, b map[string]bool) string {
		for k := range a {
			if !b[k] {
				return k
			}
		}
		return ""
	}
	for _, w := range [][2]map[string]bool{{lc, lr}, {lr, lc}} {
		for k := range w[0] {
			if !w[1][k] && (opaque(mk(Term{Op: "app", S: k})) || Peeling && RepoFn(k)) {
				return false, k
			}
		}
	}
	x := within(lc, lr)
	if x == "" {
		x = within(bc, br)
	}
	y := within(lr, lc)
	if y == "" {
		y = within(br, bc)
	}
	if x == "" || y == "" {
		return true, ""
	}
	return false, x + ", " + y
}

// optionUnset reports whether some option is known not to be given.
func optionUnset(f *Facts) bool {
	for t, v := range f.atoms {
		if !v && t.Op == "app" && strings.HasSuffix(t.S, "cli/v2.Context.IsSet") {
			return true
		}
	}
	return false
}

// foreign names a library predicate over a whole sequence one path asks for
// and the other does not: how it relates to the elements is not known.
func foreign(a, b *Facts) string {
	ask := func(f *Facts) map[string]bool {
		out := map[string]bool{}
		for _, l := range f.order {
			l.T.Walk(func(x *Term) bool {
				if x.Op == "app" && (strings.HasPrefix(x.S, "slices.") || strings.HasPrefix(x.S, "maps.") || strings.HasPrefix(x.S, "sort.")) {
					out[x.S] = true
				}
				return true
			})
		}
		return out
	}
	o := ask(b)
	for k := range ask(a) {
		if !o[k] {
			return k
		}
	}
	return ""
}

// baseLeaves collects the given quantities a term is about: paths of fields
// from a parameter.
func baseLeaves(t *Term, out map[string]bool) {
	t.Walk(func(x *Term) bool {
		switch x.Op {
		case "sym":
			out[x.S] = true
			return false
		case "fld", "deref", "faddr":
			y := x
			for len(y.Args) == 1 && (y.Op == "fld" || y.Op == "deref" || y.Op == "faddr") {
				y = y.Args[0]
			}
			if y.Op == "sym" {
				out[x.String()] = true
				return false
			}
		}
		return true
	})
}

// related refines a syntactic difference of two values: values made of
// different unknowns may be equal by an invariant the domain does not know.
func related(a, b *Term) bool {
	la, lb := map[string]bool{}, map[string]bool{}
	weakLeaves(a, la)
	weakLeaves(b, lb)
	ab, ba := false, false
	for k := range la {
		if !lb[k] {
			ab = true
		}
	}
	for k := range lb {
		if !la[k] {
			ba = true
		}
	}
	if ab && ba {
		return false
	}
	if ab && !constOnly(b) || ba && !constOnly(a) {
		return len(la) > 0 && len(lb) > 0
	}
	return true
}

// constOnly reports whether a term is built from constants only.
func constOnly(t *Term) bool {
	ok := true
	t.Walk(func(x *Term) bool {
		switch x.Op {
		case "sym", "deref", "app", "m0", "ref", "mapref":
			ok = false
		}
		return ok
	})
	return ok
}

func uniq(s []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func cmpOutcome(f *Facts, c, r *Outcome) (Verdict, string) {
	if v, w := cmpLoops(f, c, r); v != Same {
		return v, w
	}
	if c.Kind != r.Kind {
		if c.Kind == "back" || r.Kind == "back" {
			return cmpExit(f, c, r)
		}
		return Differs, fmt.Sprintf("%s where %s is required", describe(c), describe(r))
	}
	worst, why := Same, ""
	note := func(v Verdict, w, pre string) bool {
		if v == Differs {
			worst, why = v, pre+w
			return true
		}
		if v == Unknown && worst == Same {
			worst, why = v, pre+w
		}
		return false
	}
	switch c.Kind {
	case "return":
		for i := range c.Ret {
			if i >= len(r.Ret) {
				return Unknown, "result arity"
			}
			x, y := c.St.Deep(c.Ret[i]), r.St.Deep(r.Ret[i])
			v, w := cmpTerms(f, x, y, 0)
			if v == Unknown && swallowed(f, c, r, x, f.Subst(y)) {
				v, w = Differs, fmt.Sprintf("nil whatever comes of %s", y)
			}
			if note(v, w, fmt.Sprintf("result %d is ", i)) {
				return worst, why
			}
		}
	case "back":
		if c.Loop.Ord != r.Loop.Ord {
			return Unknown, "different loop"
		}
		nr := map[string]*Term{}
		for i, p := range r.Loop.Phis {
			if !p.Lin {
				nr[p.Sym.S] = r.Next[i]
			}
		}
		for i, p := range c.Loop.Phis {
			if p.Lin {
				continue
			}
			v, w := cmpTerms(f, c.St.Deep(c.Next[i]), r.St.Deep(nr[p.Sym.S]), 0)
			if note(v, w, fmt.Sprintf("loop variable %s becomes ", p.Phi.Comment)) {
				return worst, why
			}
		}
	}
	if v, w := cmpEvents(f, c.calls(), r.calls()); note(v, w, "") {
		return worst, why
	}
	rc, rr := c.St.roots(), r.St.roots()
	if DebugRoots {
		fmt.Println("OUT", c.Kind, describe(c))
		for k, v := range rc {
			fmt.Println("   cur", k, v)
		}
		for k, v := range rr {
			fmt.Println("   ref", k, v)
		}
	}
	all := map[*Term]bool{}
	for k := range rc {
		all[k] = true
	}
	for k := range rr {
		all[k] = true
	}
	var ks []*Term
	for k := range all {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		if c.base != nil && r.base != nil && c.St.heap[k] == c.base[k] && r.St.heap[k] == r.base[k] {
			continue // not touched by the function value under comparison
		}
		a, b := c.St.rootContent(k, r.St), r.St.rootContent(k, c.St)
		if c.Kind == "back" {
			// what neither loop changes is compared where they are left
			fs, any := loopFields(k, c.Loop, r.Loop)
			if !any && !iterates(k) {
				continue
			}
			if fs != nil && StructType(a.T) != nil {
				var pa, pb []*Term
				for _, i := range fs {
					pa, pb = append(pa, Field(a, i, nil)), append(pb, Field(b, i, nil))
				}
				a, b = Tuple(pa...), Tuple(pb...)
			}
		}
		finalMem = true
		mapsOf = [2]*State{c.St, r.St}
		v, w := cmpTerms(f, a, b, 0)
		mapsOf = [2]*State{}
		finalMem = false
		if v == Differs && k.T != nil && isMap(k.T) && (dropped(c.St, k) || dropped(r.St, k)) {
			v = Unknown
		}
		if v == Differs && InternalFn && c.Kind == "return" && failing(f, c) && failing(f, r) && k.T != nil && isMap(k.T) {
			v = Unknown // bookkeeping of a computation that has failed
		}
		if note(v, w, fmt.Sprintf("memory of %s: ", k)) {
			return worst, why
		}
	}
	// writes into slices made on the way: where they surface is not tracked
	tc, tr := c.St.temps(), r.St.temps()
	for k, v := range tc {
		if w, ok := tr[k]; !ok || f.Subst(c.St.Deep(v)) != f.Subst(r.St.Deep(w)) {
			note(Unknown, fmt.Sprintf("elements of %s", k), "")
		}
	}
	for k := range tr {
		if _, ok := tc[k]; !ok {
			note(Unknown, fmt.Sprintf("elements of %s", k), "")
		}
	}
	if c.Kind == "back" {
		for _, l := range c.Loop.Heap {
			for _, m := range r.Loop.Heap {
				if l.Sym == m.Sym {
					x, y := heapCell(c.St, l), heapCell(r.St, m)
					v, w := cmpTerms(f, c.St.Deep(x), r.St.Deep(y), 0)
					if note(v, w, "loop memory: ") {
						return worst, why
					}
				}
			}
		}
	}
	return worst, why
}

// iterates: the object is one the loop itself came across.
func iterates(root *Term) bool {
	found := false
	root.Walk(func(x *Term) bool {
		if s := x.S; x.Op == "sym" && (len(s) > 1 && (s[0] == 'L' || s[0] == 'H' || s[0] == 'D') && s[1] >= '0' && s[1] <= '9' || strings.HasPrefix(s, "n#") || strings.HasPrefix(s, "key#")) {
			found = true
		}
		return !found
	})
	return found
}

// loopFields lists the fields of an object two loops change; all of it when
// the list is nil.
func loopFields(root *Term, ls ...*Loop) ([]int, bool) {
	var out []int
	any, whole := false, false
	for _, l := range ls {
		for _, h := range l.Heap {
			if h.Root != root {
				continue
			}
			any = true
			if h.Field < 0 {
				whole = true
			} else {
				out = append(out, h.Field)
			}
		}
	}
	if whole {
		return nil, true
	}
	return out, any
}

func heapCell(s *State, l LoopHeap) *Term {
	v := s.heap[l.Root]
	if l.Field >= 0 {
		return Field(v, l.Field, nil)
	}
	return v
}

func describe(o *Outcome) string {
	switch o.Kind {
	case "back":
		return "the loop continues"
	case "panic":
		return "a panic"
	}
	var s []string
	for _, r := range o.Ret {
		s = append(s, o.St.Deep(r).String())
	}
	return "return " + strings.Join(s, ", ")
}

// cmpExit compares a path that leaves a loop with one that goes on: they
// certainly disagree when the loop, ending after this very iteration, gives
// something else.
func cmpExit(f *Facts, c, r *Outcome) (Verdict, string) {
	lo, ba := c, r
	if c.Kind == "back" {
		lo, ba = r, c
	}
	why := fmt.Sprintf("%s where %s", describe(c), describe(r))
	if lo.Kind == "back" || ba.After == nil {
		return Unknown, why
	}
	for _, a := range ba.After() {
		if a.Kind == "back" || len(a.St.Loops) != len(ba.St.Loops) {
			continue
		}
		g := f.Clone()
		if !g.join(a.St.F) {
			continue
		}
		x, y := lo, a
		if c.Kind == "back" {
			x, y = a, lo
		}
		if ok, _ := definite(g, lo.St.F, a.St.F); !ok {
			continue
		}
		if v, w := cmpOutcome(g, x, y); v == Differs {
			return Differs, why + "; when that iteration is the last: " + w
		}
	}
	return Unknown, why
}
