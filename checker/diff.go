package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	rdebug "runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// Abstract semantic differencing: a function of the repository and its
// committed reference semantics are interpreted over the same abstract inputs;
// on every region their summaries share they must agree.

var dbg = os.Getenv("DEBUG") != ""

// tableKey returns the key of fn when it has reference semantics.
func (r *Repo) tableKey(fn *ssa.Function) (string, bool) {
	if fn.Parent() != nil {
		return "", false
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	k := r.Key(fn)
	_, ok := r.refFn[k]
	return k, ok
}

// called lists the table functions fn calls, looking through helpers that are
// not in the table.
func (r *Repo) called(fn *ssa.Function, through map[string]bool) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function, top bool)
	walk = func(f *ssa.Function, top bool) {
		if f == fn && !top {
			if k, ok := r.tableKey(f); ok {
				out[k] = true // calls itself
			}
		}
		if seen[f] {
			return
		}
		seen[f] = true
		if !top {
			if k, ok := r.tableKey(f); ok {
				out[k] = true
				if !through[k] {
					return
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && r.Local(g) {
						walk(g, false)
					}
				}
			}
		}
	}
	walk(fn, true)
	return out
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "errors": true, "fmt": true, "bytes": true, "slices": true, "maps": true, "regexp/syntax": true, "math/bits": true, "go/format": true}

// Pure reports whether fn writes nothing its caller can observe.
func (r *Repo) Pure(fn *ssa.Function) bool {
	if r.pure == nil {
		r.pure = map[*ssa.Function]bool{}
	}
	if v, ok := r.pure[fn]; ok {
		return v
	}
	r.pure[fn] = true // optimistic for recursion
	v := r.pureBody(fn)
	r.pure[fn] = v
	return v
}

// makesNew: every return of fn gives a map or slice it made itself.
func makesNew(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 || fn.Signature.Results().Len() != 1 {
		return false
	}
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			switch ret.Results[0].(type) {
			case *ssa.MakeMap, *ssa.MakeSlice:
			default:
				return false
			}
		}
	}
	return true
}

func localAddr(v ssa.Value) bool {
	for i := 0; i < 50; i++ {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			// a slice or map held in a local variable
			a, ok := x.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			for _, ref := range *a.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
					if s.Val == v {
						return false
					}
					if !localAddr(s.Val) {
						return false
					}
				}
			}
			return true
		case *ssa.Convert:
			return true // string<->bytes copies
		case *ssa.Call:
			return makesNew(x.Common().StaticCallee())
		case *ssa.Phi:
			for _, e := range x.Edges {
				if _, isPhi := e.(*ssa.Phi); isPhi {
					continue
				}
				if c, ok := e.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						continue
					}
				}
				if c, ok := e.(*ssa.Const); ok && c.Value == nil {
					continue
				}
				if !localAddr(e) {
					return false
				}
			}
			return true
		default:
			return false
		}
	}
	return false
}

func (r *Repo) pureBody(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !localAddr(x.Addr) {
					return false
				}
			case *ssa.MapUpdate:
				if !localAddr(x.Map) {
					return false
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return false
			case *ssa.Call:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "copy", "clear":
						if !localAddr(c.Args[0]) {
							return false
						}
					}
					continue
				}
				if c.IsInvoke() {
					if c.Method.Name() == "String" || c.Method.Name() == "Error" {
						continue
					}
					return false
				}
				sc := c.StaticCallee()
				if sc == nil {
					return false
				}
				if r.Local(sc) {
					if sc.Parent() != nil {
						return false
					}
					if !r.Pure(sc) {
						return false
					}
					continue
				}
				if sc.Pkg == nil && sc.Origin() == nil {
					return false
				}
				pp := ""
				if o := sc.Object(); o != nil && o.Pkg() != nil {
					pp = o.Pkg().Path()
				} else if o := sc.Origin(); o != nil && o.Object() != nil {
					pp = o.Object().Pkg().Path()
				}
				if !purePkgs[pp] {
					return false
				}
				// methods on builders must act on local ones; writers likewise
				for _, a := range c.Args {
					if _, ok := a.Type().Underlying().(*types.Pointer); ok && !localAddr(a) {
						return false
					}
					if mi, ok := a.(*ssa.MakeInterface); ok {
						if _, ok := mi.X.Type().Underlying().(*types.Pointer); ok && !localAddr(mi.X) && strings.HasPrefix(sc.Name(), "F") {
							return false
						}
					}
				}
				if strings.HasPrefix(ai.ExtKey(sc), "maps.Copy") && !localAddr(c.Args[0]) {
					return false
				}
				if strings.HasPrefix(sc.Name(), "Sort") && len(c.Args) > 0 && !localAddr(c.Args[0]) {
					return false
				}
			}
		}
	}
	return true
}

// diffInterp prepares an interpreter where the shared callees stay opaque.
func (r *Repo) diffInterp(shared map[string]bool) *ai.Interp {
	in := &ai.Interp{Prog: r.Prog, Local: r.Local, Consts: r.Consts()}
	in.Policy = func(fn *ssa.Function) ai.Mode {
		k, ok := r.tableKey(fn)
		if ok && strings.HasSuffix(k, ".String") {
			return ai.Pure // however it is reached: a call, an interface or a verb
		}
		if !ok || !shared[k] {
			return ai.Inline
		}
		if r.Pure(r.refFn[k]) {
			return ai.Pure
		}
		return ai.Effect
	}
	in.Summary = func(fn *ssa.Function) *ai.ModSet {
		if k, ok := r.tableKey(fn); ok {
			return ai.Mods(r.refFn[k])
		}
		return ai.Mods(fn)
	}
	in.TouchOf = func(fn *ssa.Function) *ai.ModSet {
		if k, ok := r.tableKey(fn); ok {
			return ai.Touch(r.refFn[k])
		}
		return ai.Touch(fn)
	}
	return in
}

// DiffResult is the verdict for one function.
type DiffResult struct {
	Key     string
	V       ai.Verdict
	Diffs   []ai.Diff
	Cur     *ai.Interp
	Ref     *ai.Interp
	CurFn   *ssa.Function
	Missing bool
}

// budget bounds the time spent interpreting one function; late in a run it
// shrinks, so that a check always answers.
func budget(d time.Duration) time.Time {
	now := time.Now()
	if now.Sub(started) > 300*time.Second {
		d = 2 * time.Second
	}
	return now.Add(d)
}

var started = time.Now()

// diff0 compares one function with its reference semantics on its own.
func (r *Repo) diff0(key string) DiffResult {
	if cur, ref := r.Func(key), r.refFn[key]; cur != nil && ref != nil {
		a, b := callsItself(cur), callsItself(ref)
		if a != b && (a && worklist(ref, cur) || b && worklist(cur, ref)) {
			return DiffResult{Key: key, V: ai.Unknown, CurFn: cur,
				Diffs: []ai.Diff{{V: ai.Unknown, What: "a recursion made a loop, or a loop a recursion"}}}
		}
	}
	res := r.diffEngine(key)
	if res.V == ai.Unknown && !res.Missing && os.Getenv("NOPEEL") == "" {
		if ds := r.peeled(key, res.CurFn); len(ds) > 0 {
			res.V = ai.Differs
			res.Diffs = append(ds, res.Diffs...)
		}
	}
	if res.V == ai.Unknown && !res.Missing && os.Getenv("NOPOINT") == "" {
		ok, why, pos, edits := r.pointEdit(key, res.CurFn, r.refFn[key])
		if dbg {
			for _, e := range edits {
				fmt.Printf("      edit %s %s -> %s\n", e.kind, e.r, e.c)
			}
		}
		if ok {
			res.V = ai.Differs
			res.Diffs = append([]ai.Diff{{V: ai.Differs, What: fmt.Sprintf("%s: %s (the rest of the function is that of the reference)", r.Pos(pos), why)}}, res.Diffs...)
		}
	}
	return res
}

// peeled looks at the first iterations of every loop one by one, where the
// arbitrary iteration of two differently built loops could not be related.
func (r *Repo) peeled(key string, cur *ssa.Function) (out []ai.Diff) {
	ref := r.refFn[key]
	if cur == nil || ref == nil || len(cur.Params) != len(ref.Params) {
		return nil
	}
	defer func() {
		if p := recover(); p != nil {
			if dbg {
				fmt.Println("      peel:", key, p)
			}
			out = nil
		}
		ai.Deadline = time.Time{}
		ai.Peeling = false
		ai.SelfKey = ""
	}()
	ai.Peeling = true
	ai.SelfKey = key
	ai.RepoFn = func(s string) bool {
		if i := strings.LastIndexByte(s, '.'); i > 0 && r.refFn[s] == nil {
			if _, err := strconv.Atoi(s[i+1:]); err == nil {
				s = s[:i]
			}
		}
		return r.refFn[s] != nil
	}
	r.setResults(key)
	ai.InternalFn = r.internal(cur)
	args := make([]*ai.Term, len(ref.Params))
	for i, p := range ref.Params {
		args[i] = ai.Sym(p.Name(), p.Type())
	}
	defer func(old map[*ai.Term][2]int64) { ai.SymRange = old }(ai.SymRange)
	ai.SymRange = r.paramRanges(cur, args)
	if ds := r.peel(key, cur, ref, args, r.sharedOf(key, cur, ref, nil)); len(ds) > 0 {
		return ds
	}
	// once more, looking into the helpers
	inl := map[string]bool{}
	for _, fn := range []*ssa.Function{cur, ref} {
		for c := range r.called(fn, nil) {
			if cf, rf := r.Func(c), r.refFn[c]; c != key && cf != nil && rf != nil && r.inlinable(cf) && !r.busy[c] && r.raw(c).V == ai.Same {
				inl[c] = true
			}
		}
	}
	ai.Peeling = true
	if len(inl) > 0 {
		shared := r.sharedOf(key, cur, ref, inl)
		for k := range inl {
			delete(shared, k)
		}
		return r.peel(key, cur, ref, args, shared)
	}
	return nil
}

func (r *Repo) peel(key string, cur, ref *ssa.Function, args []*ai.Term, shared map[string]bool) []ai.Diff {
	for _, p := range [][2]int{{2, 0}, {2, 4}, {2, 2}, {1, 0}, {1, 1}} {
		if ds, ok := r.peelOnce(key, cur, ref, args, shared, p[0], p[1]); ok {
			return ds
		}
	}
	return nil
}

func (r *Repo) peelOnce(key string, cur, ref *ssa.Function, args []*ai.Term, shared map[string]bool, peel, total int) (out []ai.Diff, done bool) {
	defer func() {
		if p := recover(); p != nil {
			if dbg {
				fmt.Println("      peel:", key, peel, p)
			}
			out, done = nil, false
		}
	}()
	ai.Deadline = budget(8 * time.Second)
	run := func(fn *ssa.Function) *ai.Interp {
		in := r.diffInterp(shared)
		in.Peel, in.PeelTotal = peel, total
		in.MaxSteps = 150000
		in.Run(fn, args, ai.NewState())
		return in
	}
	ri, ci := run(ref), run(cur)
	if dbg {
		fmt.Printf("      peel %s %d/%d: %d/%d outcomes, %v %v\n", key, peel, total, len(ci.Outcomes), len(ri.Outcomes), ci.Undecided, ri.Undecided)
	}
	if len(ri.Undecided)+len(ci.Undecided) > 0 {
		return nil, false
	}
	if len(ri.RecClosures)+len(ci.RecClosures) > 0 {
		return nil, true
	}
	for _, d := range ai.Compare(ci, ri) {
		if d.V == ai.Differs {
			d.What = fmt.Sprintf("first iterations (up to %d): %s", peel, d.What)
			return []ai.Diff{d}, true
		}
		if dbg {
			fmt.Println("      peel-unknown:", d.What)
		}
	}
	return nil, true
}

func (r *Repo) diffEngine(key string) (res DiffResult) {
	res = DiffResult{Key: key}
	defer func() {
		if p := recover(); p != nil {
			res.V = ai.Unknown
			res.Diffs = []ai.Diff{{V: ai.Unknown, What: fmt.Sprintf("analysis limit: %v", p)}}
			if dbg {
				fmt.Println(string(rdebug.Stack()))
			}
		}
	}()
	ref := r.refFn[key]
	cur := r.Func(key)
	if ref == nil || cur == nil {
		res.V = ai.Unknown
		res.Missing = true
		return res
	}
	res.CurFn = cur
	ai.InternalFn = r.internal(cur)
	r.setResults(key)
	if len(cur.Params) != len(ref.Params) {
		res.V = ai.Unknown
		res.Diffs = []ai.Diff{{V: ai.Unknown, What: "signature changed"}}
		return res
	}
	for i := range cur.Params {
		if !types.Identical(cur.Params[i].Type(), ref.Params[i].Type()) && cur.Params[i].Type().String() != ref.Params[i].Type().String() {
			res.V = ai.Unknown
			res.Diffs = []ai.Diff{{V: ai.Unknown, What: "signature changed"}}
			return res
		}
	}
	ai.Deadline = budget(20 * time.Second)
	defer func() { ai.Deadline = time.Time{} }()
	shared := r.sharedOf(key, cur, ref, nil)
	ai.DebugRoots = os.Getenv("ROOTS") != ""
	args := make([]*ai.Term, len(ref.Params))
	for i, p := range ref.Params {
		args[i] = ai.Sym(p.Name(), p.Type())
	}
	defer func(old map[*ai.Term][2]int64) { ai.SymRange = old }(ai.SymRange)
	ai.SymRange = r.paramRanges(cur, args)
	res.Diffs, res.V = r.diffWith(key, cur, ref, args, shared, &res)
	if res.V == ai.Same {
		return res
	}
	// Escalate: look through small callees as well.
	small := map[string]bool{}
	for k := range shared {
		if f := r.Func(k); f != nil && k != key && r.inlinable(f) && (res.V == ai.Unknown || r.Pure(f) && mentions(res.Diffs, k)) {
			small[k] = true
		}
	}
	if len(small) > 0 {
		s2 := r.sharedOf(key, cur, ref, small)
		for k := range small {
			delete(s2, k)
		}
		var alt DiffResult
		var ds []ai.Diff
		v := ai.Unknown
		func() {
			defer func() {
				if p := recover(); p != nil {
					// what the callees do could not be looked at in time
					ds, v = res.Diffs, ai.Unknown
					res.V = ai.Unknown
					if dbg {
						fmt.Println("      looking through callees:", key, p)
					}
				}
			}()
			ai.Deadline = budget(12 * time.Second)
			ds, v = r.diffWith(key, cur, ref, args, s2, &alt)
		}()
		switch {
		case v == ai.Same:
			res.Cur, res.Ref, res.Diffs, res.V = alt.Cur, alt.Ref, ds, v
		case res.V == ai.Differs && v == ai.Unknown:
			res.Cur, res.Ref, res.Diffs, res.V = alt.Cur, alt.Ref, ds, v
		}
	}
	return res
}

// sharedOf: callees used on both sides stay opaque; the others (and those
// named by inline) are looked through, which may uncover further common ones.
func (r *Repo) sharedOf(key string, cur, ref *ssa.Function, inline map[string]bool) map[string]bool {
	through := map[string]bool{}
	for k := range inline {
		through[k] = true
	}
	var shared map[string]bool
	for round := 0; round < 10; round++ {
		a, b := r.called(cur, through), r.called(ref, through)
		shared = map[string]bool{}
		more := false
		for k := range a {
			if b[k] {
				shared[k] = true
			} else if !through[k] {
				through[k], more = true, true
			}
		}
		for k := range b {
			if !a[k] && !through[k] {
				through[k], more = true, true
			}
		}
		if !more {
			break
		}
	}
	for k := range through {
		delete(shared, k)
	}
	shared[key] = true
	return shared
}

// raw caches diff0.
func (r *Repo) raw(key string) DiffResult {
	if r.diffs == nil {
		r.diffs = map[string]DiffResult{}
	}
	if d, ok := r.diffs[key]; ok {
		return d
	}
	if r.busy == nil {
		r.busy = map[string]bool{}
	}
	r.busy[key] = true
	d := r.diff0(key)
	delete(r.busy, key)
	r.diffs[key] = d
	return d
}

// internal reports whether only the package's own calls reach a function, so
// that what it does matters only through its callers.
func (r *Repo) internal(fn *ssa.Function) bool {
	name := fn.Name()
	exported := token.IsExported(name)
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && !n.Obj().Exported() {
			exported = false
		}
		if name == "String" || name == "Error" {
			return false
		}
	}
	if exported || name == "init" || name == "main" {
		return false
	}
	for _, f := range r.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(fn) {
						continue
					}
					if u := r.unitOf[f.Pkg]; u != nil && stubbed(u, f.Name()) {
						return false // called by the generated part
					}
					c, ok := in.(ssa.CallInstruction)
					if !ok || c.Common().Value != ssa.Value(fn) {
						return false
					}
					for _, a := range c.Common().Args {
						if a == ssa.Value(fn) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// callers lists the table functions that call fn directly (or through
// helpers and closures of their own).
func (r *Repo) callers(key string) []string {
	if r.callersOf == nil {
		r.callersOf = map[string][]string{}
		add := func(m map[string]map[string]bool, fn *ssa.Function, k string) {
			for c := range r.called(fn, nil) {
				if c != k {
					if m[c] == nil {
						m[c] = map[string]bool{}
					}
					m[c][k] = true
				}
			}
		}
		m := map[string]map[string]bool{}
		for k, ref := range r.refFn {
			if ref.Parent() != nil {
				continue
			}
			add(m, ref, k)
			if cur := r.Func(k); cur != nil {
				add(m, cur, k)
			}
		}
		for c, ks := range m {
			for k := range ks {
				r.callersOf[c] = append(r.callersOf[c], k)
			}
			sort.Strings(r.callersOf[c])
		}
	}
	return r.callersOf[key]
}

func (r *Repo) selfRec(fn *ssa.Function) bool {
	k, _ := r.tableKey(fn)
	return r.called(fn, nil)[k]
}

// inlined compares a function with the given callees looked through.
func (r *Repo) inlined(key string, inline map[string]bool) (res DiffResult) {
	res = DiffResult{Key: key, V: ai.Unknown}
	defer func() {
		if p := recover(); p != nil {
			res.V = ai.Unknown
		}
	}()
	cur, ref := r.Func(key), r.refFn[key]
	if cur == nil || ref == nil || len(cur.Params) != len(ref.Params) {
		return res
	}
	res.CurFn = cur
	r.setResults(key)
	args := make([]*ai.Term, len(ref.Params))
	for i, p := range ref.Params {
		args[i] = ai.Sym(p.Name(), p.Type())
	}
	defer func(old map[*ai.Term][2]int64) { ai.SymRange = old }(ai.SymRange)
	ai.SymRange = r.paramRanges(cur, args)
	ai.Deadline = budget(8 * time.Second)
	defer func() { ai.Deadline = time.Time{} }()
	shared := r.sharedOf(key, cur, ref, inline)
	for k := range inline {
		delete(shared, k)
	}
	res.Diffs, res.V = r.diffWith(key, cur, ref, args, shared, &res)
	if os.Getenv("DUMPINL") == key {
		fmt.Println("INLINED", key, inline, res.V)
		dumpFn(&Ctx{Repo: r}, cur, res.Cur)
		fmt.Println("REFERENCE")
		dumpFn(&Ctx{Repo: r}, ref, res.Ref)
	}
	return res
}

// Diff decides a function in its context: a helper that changed together with
// its callers is judged through them.
func (r *Repo) Diff(key string) DiffResult {
	d := r.raw(key)
	if d.Missing || d.V != ai.Differs {
		return d
	}
	if r.ctx == nil {
		r.ctx = map[string]DiffResult{}
	}
	if x, ok := r.ctx[key]; ok {
		return x
	}
	out := d
	// helpers of this function that changed as well
	changed := map[string]bool{}
	for _, fn := range []*ssa.Function{r.Func(key), r.refFn[key]} {
		for c := range r.called(fn, nil) {
			cf := r.Func(c)
			if c == key || cf == nil || !r.internal(cf) || r.selfRec(cf) {
				continue
			}
			if r.raw(c).V != ai.Same {
				changed[c] = true
			}
		}
	}
	if len(changed) > 0 {
		x := r.inlined(key, changed)
		if x.V != ai.Differs {
			x.Diffs = append(x.Diffs, ai.Diff{V: ai.Unknown, What: "differs, as do helpers it calls"})
			out = x
		}
	}
	// a helper: its callers, looking into it, are what matters
	if fn := r.Func(key); out.V == ai.Differs && r.internal(fn) && !r.selfRec(fn) {
		cs := r.callers(key)
		all, anyChanged, n := true, false, 0
		for _, c := range cs {
			if r.Func(c) == nil {
				all = false
				continue
			}
			if r.raw(c).V != ai.Same {
				anyChanged = true
			}
			n++
			x := r.inlined(c, map[string]bool{key: true})
			if x.V != ai.Same {
				all = false
				if x.V == ai.Differs {
					anyChanged = false
					break
				}
			}
		}
		switch {
		case n > 0 && all:
			out.V = ai.Same
			out.Diffs = nil
		case anyChanged:
			out.V = ai.Unknown
			out.Diffs = append([]ai.Diff{{V: ai.Unknown, What: "differs, as do its callers"}}, out.Diffs...)
		}
	}
	r.ctx[key] = out
	return out
}

// mentions reports whether a definite difference is about a result of k.
func mentions(ds []ai.Diff, k string) bool {
	if i := strings.LastIndex(k, "/"); i >= 0 {
		k = k[i+1:]
	}
	for _, d := range ds {
		if d.V == ai.Differs && strings.Contains(d.What, k+"(") {
			return true
		}
	}
	return false
}

// paramRanges gives the intervals of the parameters every caller passes a field
// of a known interval for.
func (r *Repo) paramRanges(cur *ssa.Function, args []*ai.Term) map[*ai.Term][2]int64 {
	out := map[*ai.Term][2]int64{}
	dead := map[int]bool{}
	for _, fn := range r.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(cur) {
							return nil
						}
					}
					continue
				}
				if call.Common().StaticCallee() != cur {
					continue
				}
				for i, a := range call.Common().Args {
					if i >= len(args) || dead[i] {
						continue
					}
					rg, ok := fieldRange(a)
					if p, had := out[args[i]]; had && (!ok || p != rg) || !ok {
						dead[i] = true
						delete(out, args[i])
						continue
					}
					out[args[i]] = rg
				}
			}
		}
	}
	return out
}

// fieldRange: the value is what a field of a known interval holds.
func fieldRange(v ssa.Value) ([2]int64, bool) {
	var st types.Type
	var i int
	switch x := v.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL {
			return [2]int64{}, false
		}
		st, i = fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field
	case *ssa.Field:
		st, i = x.X.Type(), x.Field
	default:
		return [2]int64{}, false
	}
	n, ok := st.(*types.Named)
	if !ok {
		return [2]int64{}, false
	}
	rg, ok := ai.FieldRange[n.Obj().Name()+"."+n.Underlying().(*types.Struct).Field(i).Name()]
	return rg, ok
}

// inlinable: small functions that call nothing recursive.
func (r *Repo) inlinable(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && g == f {
					return false
				}
			}
		}
	}
	return n > 0 && n <= 60
}

// diffWith compares with the given callees opaque.
func (r *Repo) diffWith(key string, cur, ref *ssa.Function, args []*ai.Term, shared map[string]bool, res *DiffResult) ([]ai.Diff, ai.Verdict) {
	ri := r.diffInterp(shared)
	ri.Run(ref, args, ai.NewState())
	try := func(perm map[string][]int) (*ai.Interp, []ai.Diff, ai.Verdict) {
		ci := r.diffInterp(shared)
		ci.Perm = perm
		ci.Run(cur, args, ai.NewState())
		ds := ai.Compare(ci, ri)
		v := ai.Same
		for _, d := range ds {
			if d.V == ai.Differs {
				return ci, ds, ai.Differs
			}
			v = ai.Unknown
		}
		if v == ai.Same {
			if cv, why := ai.CompareClosures(ci, ri); cv != ai.Same {
				return ci, []ai.Diff{{V: cv, What: why}}, cv
			}
		}
		return ci, ds, v
	}
	ci, ds, v := try(nil)
	res.Cur, res.Ref = ci, ri
	if v == ai.Differs {
		// Loop cells starting from the same value may correspond differently.
		perms := permutations(ci.Dups, 60)
		for _, p := range perms {
			c2, d2, v2 := try(p)
			if v2 != ai.Differs {
				res.Cur = c2
				return d2, v2
			}
		}
	}
	return ds, v
}

// permutations enumerates renumberings of cells sharing a base name, one
// group at a time and then all pairs of groups, at most max of them.
func permutations(dups map[string]int, max int) []map[string][]int {
	var bases []string
	for b, n := range dups {
		if n > 1 && n <= 4 {
			bases = append(bases, b)
		}
	}
	sort.Strings(bases)
	choices := []map[string][]int{{}}
	for _, b := range bases {
		n := dups[b]
		var ps [][]int
		var gen func(p []int)
		gen = func(p []int) {
			if len(p) == n {
				ps = append(ps, append([]int(nil), p...))
				return
			}
		next:
			for i := 0; i < n; i++ {
				for _, q := range p {
					if q == i {
						continue next
					}
				}
				gen(append(p, i))
			}
		}
		gen(nil)
		var nc []map[string][]int
		for _, c := range choices {
			for _, p := range ps {
				m := map[string][]int{b: p}
				for k, v := range c {
					m[k] = v
				}
				nc = append(nc, m)
			}
		}
		choices = nc
		if len(choices) > max {
			choices = choices[:max]
		}
	}
	if len(bases) == 0 {
		return nil
	}
	return choices
}

func init() {
	register(&Check{ID: "DIFFALL", Run: func(c *Ctx) {
		var ks []string
		for k := range c.refFn {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if o := splitEnv("DIFF"); len(o) > 0 {
			ks = o
		}
		cnt := map[ai.Verdict]int{}
		for _, k := range ks {
			if c.refFn[k].Parent() != nil {
				continue
			}
			d := c.Diff(k)
			if os.Getenv("POINTALL") != "" && c.Func(k) != nil {
				if ok, why, pos, es := c.pointEdit(k, c.Func(k), c.refFn[k]); ok || len(es) > 0 && os.Getenv("POINTALL") == "2" {
					fmt.Printf("PE %s %s %s %v %d\n", k, c.Pos(pos), why, ok, len(es))
					for _, e := range es {
						fmt.Printf("   PE-edit %s %s -> %s\n", e.kind, e.r, e.c)
					}
				}
			}
			cnt[d.V]++
			nc, nr := 0, 0
			if d.Cur != nil {
				nc, nr = len(d.Cur.Outcomes), len(d.Ref.Outcomes)
			}
			if os.Getenv("SHOW") != "" && d.Cur != nil {
				fmt.Println("=== code")
				dumpFn(c, d.CurFn, d.Cur)
				fmt.Println("=== reference")
				dumpFn(c, d.CurFn, d.Ref)
			}
			switch d.V {
			case ai.Same:
				fmt.Printf("same    %s (%d/%d)\n", k, nc, nr)
			default:
				n := "UNKNOWN"
				if d.V == ai.Differs {
					n = "DIFFERS"
				}
				fmt.Printf("%s %s (%d/%d)\n", n, k, nc, nr)
				shown := 0
				for _, x := range d.Diffs {
					if d.V == ai.Differs && x.V != ai.Differs {
						continue
					}
					fmt.Println("      " + strings.ReplaceAll(x.String(), "\n", "\n      "))
					if shown++; shown >= 2 {
						break
					}
				}
			}
		}
		fmt.Println(cnt, "gone", c.RefsGone)
		c.Held("x", "y", "")
	}})
}

// setResults provides the result sets of the functions of key's package.
func (r *Repo) setResults(key string) {
	prefix := ""
	if i := strings.LastIndexByte(key, '/'); i >= 0 {
		prefix = key[:i+1]
	}
	ai.RetTuples = func(name string) [][]ai.RetVal { return r.retTuples(prefix + name) }
	ai.RefFn = func(name string) bool { return r.refFn[name] != nil || r.refFn[prefix+name] != nil }
	ai.NewFn = func(name string) bool {
		return r.refFn[name] == nil && r.Func(name) != nil || r.refFn[prefix+name] == nil && r.Func(prefix+name) != nil
	}
}

// callsItself: a function that is recursive without a detour.
func callsItself(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}

// worklist: a loop that fn has in place of other's recursion: one more than
// other has, or one that keeps a list other does not keep.
func worklist(fn, other *ssa.Function) bool {
	count := func(fn *ssa.Function) (loops, lists int) {
		for _, b := range fn.Blocks {
			head := false
			for _, p := range b.Preds {
				if b.Dominates(p) {
					head = true
				}
			}
			if !head {
				continue
			}
			loops++
			for _, i := range b.Instrs {
				phi, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				if _, ok := phi.Type().Underlying().(*types.Slice); ok {
					lists++
				}
			}
		}
		return
	}
	n, l := count(fn)
	m, k := count(other)
	return n > m || n == m && l > k
}
