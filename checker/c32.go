package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// Partial operations: indexing, slicing, dereferencing, dividing, asserting a
// type and calling library functions with a precondition. Each is an
// obligation, discharged when the facts of its path entail its precondition.
// An obligation left open by the path facts is backed, in the reference
// semantics, by an argument about the data (DESIGN.md); that argument covers
// exactly the operands and guards of the reference.

type partial struct {
	sig string
	pos token.Pos
}

type partials struct {
	total, open int
	sigs        map[string]token.Pos
}

var partialLib = map[string]int{ // function -> argument that must be > 0 or >= 0
	"strings.Repeat": 1, "bytes.Repeat": 1, "slices.Repeat": 1, "slices.Grow": 1,
	"rand.Intn": -1, "rand.Int63n": -1, "rand.Int31n": -1, "rand.IntN": -1,
	"regexp.MustCompile": -2, "template.Must": -2,
}

func (r *Repo) partialsOf(fn *ssa.Function, args []*ai.Term, shared map[string]bool) (p *partials) {
	p = &partials{sigs: map[string]token.Pos{}}
	defer func() { recover() }()
	in := r.diffInterp(shared)
	open := func(st *ai.State, kind string, pos token.Pos, ops ...*ai.Term) {
		p.open++
		var parts []string
		atoms := map[*ai.Term]bool{}
		for _, o := range ops {
			if o == nil {
				continue
			}
			parts = append(parts, o.String())
			o.Walk(func(t *ai.Term) bool {
				if len(t.Args) == 0 && (t.Op == "sym" || t.Op == "app") || t.Op == "deref" || t.Op == "field" {
					atoms[t] = true
				}
				return true
			})
		}
		var guards []string
		for _, l := range st.F.Lits() {
			hit := false
			l.T.Walk(func(t *ai.Term) bool {
				if atoms[t] {
					hit = true
				}
				return !hit
			})
			if hit {
				guards = append(guards, fmt.Sprintf("%v %s", l.Pos, l.T))
			}
		}
		sort.Strings(guards)
		sig := kind + " " + strings.Join(parts, " , ") + " given [" + strings.Join(guards, "; ") + "]"
		if _, ok := p.sigs[sig]; !ok {
			p.sigs[sig] = pos
		}
	}
	in.OnIndex = func(st *ai.State, f *ssa.Function, pos token.Pos, seq, idx *ai.Term, incl bool) {
		p.total++
		lo := st.F.Truth(ai.Le(ai.Int(0), idx)) == 1
		hi := true
		if seq != nil {
			n := ai.Len(seq)
			if incl {
				hi = st.F.Truth(ai.Le(idx, n)) == 1
			} else {
				hi = st.F.Truth(ai.Lt(idx, n)) == 1
			}
		}
		if !lo || !hi {
			open(st, fmt.Sprintf("index(%v,%v)", lo, hi), pos, seq, idx)
		}
	}
	in.OnDeref = func(st *ai.State, f *ssa.Function, pos token.Pos, ptr *ai.Term) {
		root := ai.Root(ptr)
		switch root.Op {
		case "ref", "global", "faddr", "iaddr", "mapref":
			return
		}
		p.total++
		if ptr.IsNil() || st.F.Truth(ai.Eq(root, ai.Nil())) != -1 {
			if root.Op == "sym" {
				return // a parameter or captured variable
			}
			open(st, "nil", pos, root)
		}
	}
	in.OnDiv = func(st *ai.State, f *ssa.Function, pos token.Pos, d *ai.Term) {
		p.total++
		if st.F.Truth(ai.EqInt(d, ai.Int(0))) != -1 {
			open(st, "division", pos, d)
		}
	}
	in.OnCall = func(st *ai.State, caller *ssa.Function, pos token.Pos, g *ssa.Function, name string, as []*ai.Term) {
		n := name
		if i := strings.IndexByte(n, '['); i >= 0 {
			n = n[:i]
		}
		k, ok := partialLib[n]
		if !ok {
			return
		}
		p.total++
		switch {
		case k == -2:
			open(st, "call "+n, pos, as...)
		case k == -1:
			if a := as[len(as)-1]; st.F.Truth(ai.Lt(ai.Int(0), a)) != 1 {
				open(st, "call "+n, pos, a)
			}
		case k < len(as):
			if st.F.Truth(ai.Le(ai.Int(0), as[k])) != 1 {
				open(st, "call "+n, pos, as[k])
			}
		}
	}
	ai.Deadline = budget(8 * time.Second)
	defer func() { ai.Deadline = time.Time{} }()
	in.Run(fn, args, ai.NewState())
	for _, o := range in.Outcomes {
		if o.Kind == "panic" {
			p.total++
			open(o.St, "panic", o.Pos, o.Ret...)
		}
	}
	return p
}

const panicRule = "partial operations stay within the preconditions argued for the reference semantics"

// runC32: a function equal to its reference inherits its argument; in one
// that definitely departs from it, every open obligation must be one of the
// reference's.
func runC32(c *Ctx) {
	var keys []string
	for k := range c.refFn {
		if c.refFn[k].Parent() == nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	total, open := 0, 0
	for _, k := range keys {
		cur, ref := c.Func(k), c.refFn[k]
		if cur == nil {
			continue
		}
		d := c.Diff(k)
		c.Analysed(cur)
		if c.Tier != "quick" || d.V == ai.Differs {
			args := make([]*ai.Term, len(ref.Params))
			for i, p := range ref.Params {
				args[i] = ai.Sym(p.Name(), p.Type())
			}
			shared := c.sharedOf(k, cur, ref, nil)
			pc := c.partialsOf(cur, args, shared)
			total += pc.total
			open += pc.open
			if d.V == ai.Differs {
				pr := c.partialsOf(ref, args, shared)
				bad := false
				var sigs []string
				for s := range pc.sigs {
					if _, ok := pr.sigs[s]; !ok {
						sigs = append(sigs, s)
					}
				}
				sort.Strings(sigs)
				for i, s := range sigs {
					bad = true
					if i < 4 {
						c.Violate(panicRule, k, c.Pos(pc.sigs[s]), "%s: nothing guards this operation on this path, and the reference semantics never performs it under these conditions", s)
					}
				}
				if !bad {
					c.Undecided(panicRule, k, c.Pos(cur.Pos()), "the function departs from its reference, its partial operations do not")
				}
				continue
			}
		}
		if d.V == ai.Same {
			c.Held(panicRule, k, c.Pos(cur.Pos()))
		} else {
			c.Undecided(panicRule, k, c.Pos(cur.Pos()), "not related to its reference")
		}
	}
	if total > 0 {
		c.Extra["partial_operations"] = total
		c.Extra["partial_operations_open_on_path_facts"] = open
	}
}
