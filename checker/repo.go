package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/ai"
)

// Repo is the resolved program under analysis.
type Repo struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	Prog  *ssa.Program
	Main  *ssa.Package // package goabnf
	MainP *packages.Package
	SSA   map[string]*ssa.Package
	Funcs []*ssa.Function // every function with a body in the repository (non-test)
	byKey map[string][]*ssa.Function

	consts    map[*ssa.Global]*ai.Term
	refFn     map[string]*ssa.Function
	Refs      map[string]string // key -> source file of the reference
	RefsGone  []string          // references that no longer type-check
	pure      map[*ssa.Function]bool
	diffs     map[string]DiffResult
	busy      map[string]bool
	ctx       map[string]DiffResult
	callersOf map[string][]string
	retOrig   map[string][]origin
	rets      map[string][][]ai.RetVal

	Units  []*Unit
	unitOf map[*ssa.Package]*Unit
	reused map[string]bool // fields whose memory is truncated and filled again
	RtErr  error           // the generated runtime does not type-check
}

// Unit is a package with reference semantics.
type Unit struct {
	Name   string // refs/<Name>
	Prefix string // of keys
	Dir    string // relative to the repository
	Pkg    *ssa.Package
	P      *packages.Package
}

var units = []Unit{
	{Name: "main", Prefix: "", Dir: "."},
	{Name: "abnf-gen", Prefix: "abnf-gen/", Dir: "cmd/abnf-gen"},
	{Name: "pap", Prefix: "pap/", Dir: "cmd/pap/commands"},
	{Name: "pap-main", Prefix: "pap-main/", Dir: "cmd/pap"},
	{Name: "runtime", Prefix: "rt/", Dir: "zz_rt"},
}

// Key names a function with the prefix of its unit.
func (r *Repo) Key(fn *ssa.Function) string {
	f := fn
	if o := f.Origin(); o != nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if u := r.unitOf[f.Pkg]; u != nil {
		return u.Prefix + ai.FuncKey(fn)
	}
	return ai.FuncKey(fn)
}

// isRef reports whether fn is (part of) a reference function.
func isRef(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Parent() == nil && strings.HasPrefix(f.Name(), "vr_") {
			return true
		}
	}
	return false
}

func loadRepo(dir string) (*Repo, error) {
	refs, order := readRefs(dir)
	rt, rtErr := runtimeSource(dir)
	if rtErr == nil {
		refs[filepath.Join(dir, "zz_rt", "runtime.go")] = rt
	} else {
		for f := range refs {
			if filepath.Base(filepath.Dir(f)) == "zz_rt" {
				delete(refs, f)
			}
		}
	}
	var gone []string
	for try := 0; ; try++ {
		r, badRefs, err := loadOnce(dir, refs)
		if err == nil {
			r.Refs = order
			r.RefsGone = gone
			r.RtErr = rtErr
			return r, nil
		}
		if len(badRefs) == 0 || try > 12 {
			return nil, err
		}
		for _, b := range badRefs {
			if filepath.Base(b) == "runtime.go" {
				// the runtime text itself is broken: analyse the rest
				rtErr = err
				for f := range refs {
					if filepath.Base(filepath.Dir(f)) == "zz_rt" {
						delete(refs, f)
					}
				}
				continue
			}
			delete(refs, b)
			gone = append(gone, filepath.Base(b))
		}
	}
}

// readRefs reads the committed reference semantics as overlay files.
func readRefs(dir string) (map[string][]byte, map[string]string) {
	out := map[string][]byte{}
	src := map[string]string{}
	for _, u := range units {
		fs, _ := filepath.Glob(filepath.Join(verifDir(), "refs", u.Name, "*", "*.go"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			n := strings.TrimSuffix(filepath.Base(f), ".go")
			if _, err := os.Stat(filepath.Join(dir, u.Dir)); err != nil && u.Name != "runtime" {
				continue
			}
			out[filepath.Join(dir, u.Dir, "zz_"+n+".go")] = b
			key := strings.TrimPrefix(strings.Replace(n[3:], "_", ".", 1), ".")
			src[u.Prefix+key] = filepath.Base(filepath.Dir(f))
		}
	}
	return out, src
}

func loadOnce(dir string, overlay map[string][]byte) (*Repo, []string, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedDeps | packages.NeedExportFile,
		Dir:     dir,
		Fset:    fset,
		Env:     goEnv(),
		Tests:   false,
		Overlay: overlay,
	}
	// Only the repository's own packages need syntax; drop NeedDeps so that
	// dependencies come from export data.
	cfg.Mode &^= packages.NeedDeps
	pats := []string{"./..."}
	if _, err := os.Stat(filepath.Join(dir, "cmd/pap/go.mod")); err == nil {
		pats = append(pats, "./cmd/pap/...")
	}
	if _, ok := overlay[filepath.Join(dir, "zz_rt", "runtime.go")]; ok {
		pats = append(pats, "./zz_rt")
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	bad := map[string]bool{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
			f := strings.SplitN(e.Pos, ":", 2)[0]
			if _, ok := overlay[f]; ok {
				bad[f] = true
			}
		}
	})
	if len(errs) > 0 {
		var bl []string
		for b := range bad {
			bl = append(bl, b)
		}
		sort.Strings(bl)
		return nil, bl, fmt.Errorf("type check: %s", strings.Join(errs, "; "))
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	r := &Repo{Dir: dir, Fset: fset, Pkgs: pkgs, Prog: prog, SSA: map[string]*ssa.Package{}, byKey: map[string][]*ssa.Function{}, refFn: map[string]*ssa.Function{}, unitOf: map[*ssa.Package]*Unit{}}
	for i, p := range pkgs {
		if spkgs[i] == nil {
			continue
		}
		r.SSA[p.PkgPath] = spkgs[i]
		if p.Name == "goabnf" {
			r.Main = spkgs[i]
			r.MainP = p
		}
		if len(p.GoFiles) > 0 || len(p.CompiledGoFiles) > 0 {
			fs := append(p.GoFiles, p.CompiledGoFiles...)
			rel, _ := filepath.Rel(dir, filepath.Dir(fs[0]))
			for _, u := range units {
				if u.Dir == rel {
					u := u
					u.Pkg, u.P = spkgs[i], p
					r.Units = append(r.Units, &u)
					r.unitOf[spkgs[i]] = &u
				}
			}
		}
	}
	if r.Main == nil {
		return nil, nil, fmt.Errorf("package goabnf not found")
	}
	own := map[*ssa.Package]bool{}
	for _, s := range r.SSA {
		own[s] = true
	}
	enumRanges(prog, spkgs)
	written := map[string]bool{}
	ai.WrittenField = func(f string) bool { return written[f] }
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && own[fn.Pkg] {
			ai.FieldWrites(fn, written)
		}
		if fn.Pkg != nil && own[fn.Pkg] && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			r.Funcs = append(r.Funcs, fn)
		}
	}
	sort.Slice(r.Funcs, func(i, j int) bool {
		a, b := r.Funcs[i], r.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	for _, f := range r.Funcs {
		if r.unitOf[f.Pkg] != nil {
			k := r.Key(f)
			if isRef(f) {
				r.refFn[k] = f
			} else {
				r.byKey[k] = append(r.byKey[k], f)
			}
		}
	}
	var own2 []*ssa.Function
	for _, f := range r.Funcs {
		if !isRef(f) {
			own2 = append(own2, f)
		}
	}
	r.Funcs = own2
	return r, nil, nil
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOWORK", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=")
}

// Func finds a function of package goabnf by key ("Recv.Name" or "Name").
func (r *Repo) Func(key string) *ssa.Function {
	if fs := r.byKey[key]; len(fs) > 0 {
		return fs[0]
	}
	return nil
}

// Local reports whether fn belongs to the repository's main package.
func (r *Repo) Local(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return r.unitOf[f.Pkg] != nil
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return r.unitOf[o.Pkg] != nil
		}
	}
	return false
}

// Pos renders a position relative to the repository.
func (r *Repo) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	pp := r.Fset.Position(p)
	rel, err := filepath.Rel(r.Dir, pp.Filename)
	if err != nil {
		rel = pp.Filename
	}
	return fmt.Sprintf("%s:%d", rel, pp.Line)
}

// Type finds a named type of package goabnf.
func (r *Repo) Type(name string) types.Type {
	if o := r.Main.Pkg.Scope().Lookup(name); o != nil {
		if _, ok := o.(*types.TypeName); ok {
			return o.Type()
		}
	}
	return nil
}

// Consts returns package variables that are initialised to a constant and
// never stored to elsewhere.
func (r *Repo) Consts() map[*ssa.Global]*ai.Term {
	if r.consts != nil {
		return r.consts
	}
	m := map[*ssa.Global]*ai.Term{}
	bad := map[*ssa.Global]bool{}
	cand := map[*ssa.Global]*ssa.Const{}
	scan := func(fn *ssa.Function) {
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == g {
							if c, ok := x.Val.(*ssa.Const); ok && isInit && cand[g] == nil {
								cand[g] = c
							} else {
								bad[g] = true
							}
							if x.Val == ssa.Value(g) {
								bad[g] = true
							}
							continue
						}
						bad[g] = true
					case *ssa.UnOp:
						// a load
					default:
						bad[g] = true // address escapes
					}
				}
			}
		}
	}
	for _, p := range r.SSA {
		if f := p.Func("init"); f != nil {
			scan(f)
		}
	}
	for _, f := range r.Funcs {
		scan(f)
	}
	for g, c := range cand {
		_, ptr := c.Type().Underlying().(*types.Pointer)
		if !bad[g] && (c.Value != nil || ptr) {
			m[g] = ai.ConstTerm(c)
		}
	}
	r.consts = m
	for _, p := range r.SSA {
		for _, mem := range p.Members {
			g, ok := mem.(*ssa.Global)
			if !ok || !setOnce(g) {
				continue
			}
			once := true
			for _, f := range r.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == g && f.Name() != "init" {
							once = false
						}
					}
				}
			}
			if once {
				ai.NonNil[ai.Global(g).S] = true
			}
		}
	}
	return m
}

// Interp builds an interpreter with the given call policy: keys map to modes,
// everything else in the package is inlined.
func (r *Repo) Interp(policy map[string]ai.Mode) *ai.Interp {
	return &ai.Interp{
		Prog:   r.Prog,
		Local:  r.Local,
		Consts: r.Consts(),
		Policy: func(fn *ssa.Function) ai.Mode {
			if m, ok := policy[ai.FuncKey(fn)]; ok {
				return m
			}
			return ai.Inline
		},
	}
}

// Files lists the syntax files of the repository with their package.
func (r *Repo) Files(f func(p *packages.Package, file *ast.File)) {
	for _, p := range r.Pkgs {
		for _, file := range p.Syntax {
			f(p, file)
		}
	}
}

// enumRanges records the interval of the fields that hold one of the constants
// of an enumeration of the repository: a named integer type nothing but its
// constants is converted to. The kinds of the query tables of generated parsers
// are written as kNT, kTerm and kEps only (codegen.emitTables).
func enumRanges(prog *ssa.Program, pkgs []*ssa.Package) {
	ai.FieldRange["qSym.kind"] = [2]int64{0, 2}
	// bounds of repetitions are read from digits; -1 stands for no upper bound
	for _, k := range []string{"Repetition.Min", "reRepeat.min", "sgNT.repMin"} {
		ai.FieldRange[k] = [2]int64{0, ai.Inf}
	}
	for _, k := range []string{"Repetition.Max", "reRepeat.max", "sgNT.repMax"} {
		ai.FieldRange[k] = [2]int64{-1, ai.Inf}
	}
	type rng struct{ lo, hi int64 }
	enums := map[types.Type]*rng{}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			c, ok := m.(*ssa.NamedConst)
			if !ok {
				continue
			}
			n, ok := c.Type().(*types.Named)
			if !ok || n.Obj().Pkg() != p.Pkg || n.Obj().Exported() {
				continue
			}
			if b, ok := n.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				continue
			}
			v := c.Value.Int64()
			if e := enums[n]; e == nil {
				enums[n] = &rng{min(v, 0), max(v, 0)}
			} else {
				e.lo, e.hi = min(e.lo, v), max(e.hi, v)
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Convert:
					delete(enums, x.Type())
				case *ssa.ChangeType:
					delete(enums, x.Type())
				case *ssa.BinOp:
					delete(enums, x.Type())
				case *ssa.UnOp:
					if x.Op != token.MUL {
						delete(enums, x.Type())
					}
				}
			}
		}
	}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := t.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if e := enums[f.Type()]; e != nil && !f.Exported() {
					ai.FieldRange[m.Name()+"."+f.Name()] = [2]int64{e.lo, e.hi}
				}
			}
		}
	}
}
