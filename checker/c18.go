package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

var elemKinds = []string{"ElemRulename", "ElemGroup", "ElemOption", "ElemCharVal", "ElemNumVal", "ElemProseVal"}

// kindsOf lists the element kinds a region distinguishes, and whether it
// dispatches on elements by other means.
func (r *Repo) kindsOf(fns []*ssa.Function) (kinds map[string]bool, inert map[string]ssa.Instruction, other bool) {
	kinds = map[string]bool{}
	inert = map[string]ssa.Instruction{}
	note := func(k string, in ssa.Instruction) {
		if live(in) {
			kinds[k] = true
		} else {
			inert[k] = in
		}
	}
	isItf := func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Name() == "ElemItf"
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.TypeAssert:
					if !isItf(x.X.Type()) {
						if types.IsInterface(x.X.Type()) && astName(x.AssertedType) != "" {
							note(astName(x.AssertedType), x)
						}
						continue
					}
					if n := astName(x.AssertedType); n != "" {
						note(n, x)
					} else {
						other = true
					}
				case ssa.CallInstruction:
					if c := x.Common(); c.IsInvoke() && isItf(c.Value.Type()) && c.Method.Name() != "String" {
						other = true
					}
				}
			}
		}
	}
	return
}

// live reports whether the branch taken for a kind does something of its own
// (does not simply join the path taken when the assertion fails).
func live(in ssa.Instruction) bool {
	ta, ok := in.(*ssa.TypeAssert)
	if !ok || !ta.CommaOk {
		return true
	}
	for _, ref := range *ta.Referrers() {
		ex, ok := ref.(*ssa.Extract)
		if !ok {
			return true
		}
		if ex.Index == 0 {
			for _, u := range *ex.Referrers() {
				if _, dbg := u.(*ssa.DebugRef); !dbg {
					return true
				}
			}
			continue
		}
		for _, u := range *ex.Referrers() {
			if _, dbg := u.(*ssa.DebugRef); dbg {
				continue
			}
			i, ok := u.(*ssa.If)
			if !ok {
				return true
			}
			t := i.Block().Succs[0]
			if len(t.Instrs) == 1 {
				if _, ok := t.Instrs[0].(*ssa.Jump); ok {
					continue
				}
			}
			if len(t.Preds) < 2 {
				return true
			}
			for _, x := range t.Instrs {
				ph, ok := x.(*ssa.Phi)
				if !ok {
					break
				}
				for j, e := range ph.Edges {
					if _, c := e.(*ssa.Const); c && t.Preds[j] == i.Block() {
						return true
					}
				}
			}
		}
	}
	return false
}

const kindRule = "every kind of element the reference semantics treats is treated"

func runC18(c *Ctx) {
	var keys []string
	for k := range c.refFn {
		if c.refFn[k].Parent() == nil && !strings.Contains(k, "/") {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	c.kinds(keys)
}

// runKinds decides element dispatch for the functions of the property.
func runKinds(c *Ctx) {
	keys, _ := c.keysOf(c.Check.ID)
	c.kinds(keys)
}

func (c *Ctx) kinds(keys []string) {
	n := 0
	for _, k := range keys {
		cur, ref := c.Func(k), c.refFn[k]
		if cur == nil || ref == nil {
			continue
		}
		rk, rin, _ := c.kindsOf(c.region(ref, true))
		if len(rk)+len(rin) < 2 {
			continue
		}
		n++
		c.Analysed(cur)
		where := c.Pos(cur.Pos())
		if c.Diff(k).V == ai.Same {
			c.Held(kindRule, k, where)
			continue
		}
		ck, cin, other := c.kindsOf(c.region(cur, false))
		bad := false
		for _, e := range elemKinds {
			if rk[e] && !ck[e] && len(ck) >= 2 && !other {
				bad = true
				c.Violate(kindRule, k, where, "no case for %s any more, while other kinds are still told apart", e)
			}
			if rk[e] && rin[e] == nil && cin[e] != nil && !other {
				bad = true
				c.Violate(kindRule, k, c.Pos(cin[e].Pos()), "%s is recognised here only to be passed over; the reference semantics always treats it", e)
			}
		}
		if !bad {
			c.Held(kindRule, k, where)
		}
	}
	c.Extra["dispatching_functions"] = n
}
