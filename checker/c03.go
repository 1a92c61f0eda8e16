package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// Sources of run-to-run variation, and where they can reach a result.

type variation struct {
	kind string
	pos  token.Pos
}

func entropyCall(name string) bool {
	for _, p := range []string{"time.Now", "time.Since", "crypto/rand.", "uuid.", "os.Getpid", "os.Getenv", "os.Hostname", "runtime.", "maphash.", "rand.Read", "rand.Int", "rand.Perm", "rand.Shuffle", "rand.Float", "rand.N", "rand.Uint"} {
		if strings.HasPrefix(name, p) || strings.HasPrefix(name[strings.LastIndexByte(name, '/')+1:], p) {
			return true
		}
	}
	return false
}

func (r *Repo) variations(fns []*ssa.Function) []variation {
	var out []variation
	add := func(k string, pos token.Pos) { out = append(out, variation{k, pos}) }
	sorted := map[string]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Pkg == nil && g.Origin() == nil {
					continue
				}
				n := extName(g)
				if (strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort")) && len(c.Common().Args) > 0 {
					a := c.Common().Args[0]
					if mi, ok := a.(*ssa.MakeInterface); ok {
						a = mi.X
					}
					if ct, ok := a.(*ssa.ChangeType); ok {
						a = ct.X
					}
					sorted[a.Type().Underlying().String()] = true
				}
			}
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					add("starts a goroutine", x.Pos())
				case *ssa.Select:
					add("selects among channels", x.Pos())
				case *ssa.Convert:
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						add("uses an address as a number", x.Pos())
					}
				case ssa.CallInstruction:
					g := x.Common().StaticCallee()
					if g == nil || r.Local(g) {
						continue
					}
					n := extName(g)
					if g.Signature.Recv() == nil && entropyCall(n) {
						add("calls "+n, x.Pos())
					}
					if strings.HasPrefix(n, "fmt.") {
						for _, a := range x.Common().Args {
							if c, ok := a.(*ssa.Const); ok && c.Value != nil && strings.Contains(c.Value.String(), "%p") {
								add("prints an address", x.Pos())
							}
						}
					}
					if n == "slices.Collect" || n == "slices.AppendSeq" {
						if c, ok := x.Common().Args[len(x.Common().Args)-1].(*ssa.Call); ok {
							if h := c.Common().StaticCallee(); h != nil && strings.HasPrefix(extName(h), "maps.") {
								if v, ok := x.(ssa.Value); ok && !sorted[v.Type().Underlying().String()] && escapes(v) {
									add("lets map order into a result", x.Pos())
								}
							}
						}
					}
				case *ssa.Range:
					if !isMapT(x.X.Type()) {
						continue
					}
					for _, v := range orderSinks(x, sorted) {
						out = append(out, v)
					}
				}
			}
		}
	}
	return out
}

func extName(g *ssa.Function) string {
	n := ai.ExtKey(g)
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	if g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" {
		n = "crypto/" + n
	}
	return n
}

func isMapT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// escapes: the order of the slice can be seen outside (returned, stored,
// given to a call that is not order-blind), rather than only iterated.
func escapes(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.Return:
				return true
			case *ssa.Store:
				if x.Val == v {
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						for _, u := range *al.Referrers() {
							if l, ok := u.(*ssa.UnOp); ok && walk(l) {
								return true
							}
						}
						continue
					}
					return true
				}
			case *ssa.MapUpdate:
				if x.Value == v {
					return true
				}
			case *ssa.Phi:
				if walk(x) {
					return true
				}
			case *ssa.Slice:
				if walk(x) {
					return true
				}
			case *ssa.ChangeType:
				if walk(x) {
					return true
				}
			case *ssa.MakeInterface:
				return true
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" && walk(x) {
						return true
					}
					continue
				}
				if g := x.Call.StaticCallee(); g != nil {
					n := extName(g)
					if strings.HasPrefix(n, "slices.Contains") || n == "slices.Sort" || strings.HasPrefix(n, "sort.") {
						continue
					}
				}
				return true
			}
		}
		return false
	}
	return walk(v)
}

// orderSinks: what the body of a range over a map does that depends on order.
func orderSinks(rg *ssa.Range, sorted map[string]bool) []variation {
	var hdr *ssa.BasicBlock
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			hdr, next = n.Block(), n
		}
	}
	if hdr == nil {
		return nil
	}
	// natural loop of the header
	loop := map[*ssa.BasicBlock]bool{hdr: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if loop[b] {
			return
		}
		loop[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range hdr.Preds {
		if hdr.Dominates(p) {
			back(p)
		}
	}
	// values derived from the key or the value
	der := map[ssa.Value]bool{}
	var flow func(v ssa.Value)
	flow = func(v ssa.Value) {
		if der[v] || v.Referrers() == nil {
			return
		}
		der[v] = true
		for _, in := range *v.Referrers() {
			if w, ok := in.(ssa.Value); ok {
				if e, ok := w.(*ssa.Extract); ok && e.Tuple == ssa.Value(next) && e.Index == 0 {
					continue
				}
				if b, ok := w.(*ssa.BinOp); ok && isCmp(b.Op) {
					continue
				}
				if l, ok := w.(*ssa.Lookup); ok && l.Index == v && l.X != v {
					continue
				}
				flow(w)
			}
		}
	}
	flow(next)
	var out []variation
	add := func(k string, pos token.Pos) { out = append(out, variation{k, pos}) }
	for b := range loop {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" && !sorted[x.Type().Underlying().String()] && escapes(x) && len(x.Call.Args) > 1 && carried(x, hdr) {
						add("lets map order into a result", x.Pos())
					}
					continue
				}
				if g := x.Call.StaticCallee(); g != nil {
					n := extName(g)
					if strings.Contains(n, "Write") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "fmt.Print") {
						add("lets map order into a result", x.Pos())
					}
				}
			case *ssa.BinOp:
				if x.Op == token.ADD && isStr(x.Type()) && carried(x, hdr) {
					add("lets map order into a result", x.Pos())
				}
			}
		}
	}
	// leaving early with something derived from the current entry
	for b := range loop {
		if b == hdr {
			continue
		}
		for _, s := range b.Succs {
			if loop[s] {
				continue
			}
			for x := s; x != nil; {
				last := x.Instrs[len(x.Instrs)-1]
				if ret, ok := last.(*ssa.Return); ok {
					for _, v := range ret.Results {
						if der[v] {
							add("returns whichever entry of a map comes first", ret.Pos())
						}
					}
				}
				if _, ok := last.(*ssa.Jump); ok && len(x.Succs[0].Preds) == 1 {
					x = x.Succs[0]
					continue
				}
				break
			}
			for _, in := range s.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					for i, e := range ph.Edges {
						if s.Preds[i] == b && der[e] {
							add("returns whichever entry of a map comes first", ph.Pos())
						}
					}
				}
			}
		}
	}
	// a choice that depends on how many entries came before
	for b := range loop {
		if b == hdr {
			continue
		}
		if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && countsEntries(br.Cond, hdr, loop, map[ssa.Value]bool{}) {
			add("treats the entries of a map by how many came before", br.Cond.Pos())
		}
	}
	// a pass over a map that feeds itself, repeated a fixed number of times
	if fixedPasses(hdr, loop) {
		add("repeats a pass over a map a fixed number of times", rg.Pos())
	}
	// numbering entries in iteration order
	for _, in := range hdr.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok || !isIntT(ph.Type()) {
			continue
		}
		for _, u := range *ph.Referrers() {
			if mu, ok := u.(*ssa.MapUpdate); ok && mu.Value == ssa.Value(ph) && loop[mu.Block()] {
				add("numbers the entries of a map in iteration order", mu.Pos())
			}
		}
	}
	return out
}

// countsEntries: the value depends on a number the loop counts up, or on the
// size of something the loop itself fills.
func countsEntries(v ssa.Value, hdr *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == hdr {
			return isIntT(x.Type())
		}
		if !loop[x.Block()] {
			return false
		}
		for _, e := range x.Edges {
			if countsEntries(e, hdr, loop, seen) {
				return true
			}
		}
	case *ssa.BinOp:
		if !loop[x.Block()] || !isIntT(x.X.Type()) {
			return false
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			// "is it the first": an order choice too, but also how an empty set is told apart
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Int64() == 0 {
				return false
			}
		}
		if isLenCall(x.X) && isLenCall(x.Y) {
			return false // everything is in already: nothing is left to choose
		}
		return countsEntries(x.X, hdr, loop, seen) || countsEntries(x.Y, hdr, loop, seen)
	case *ssa.UnOp:
		return x.Op == token.NOT && countsEntries(x.X, hdr, loop, seen)
	case *ssa.Call:
		bi, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" || !loop[x.Block()] {
			return false
		}
		a := x.Call.Args[0]
		if ph, ok := a.(*ssa.Phi); ok && ph.Block() == hdr {
			return true
		}
		if isMapT(a.Type()) && a.Referrers() != nil {
			for _, u := range *a.Referrers() {
				if mu, ok := u.(*ssa.MapUpdate); ok && mu.Map == a && loop[mu.Block()] {
					return true
				}
			}
		}
	}
	return false
}

// fixedPasses: an enclosing loop counts to a constant while its body, a pass
// over a map, both consults and fills the same map.
func fixedPasses(hdr *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) bool {
	feeds := false
	for b := range loop {
		for _, in := range b.Instrs {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || mu.Map.Referrers() == nil {
				continue
			}
			for _, u := range *mu.Map.Referrers() {
				switch x := u.(type) {
				case *ssa.Lookup:
					feeds = feeds || x.X == mu.Map && loop[x.Block()]
				case *ssa.Call:
					feeds = feeds || loop[x.Block()]
				}
			}
		}
	}
	if !feeds {
		return false
	}
	for _, b := range hdr.Parent().Blocks {
		if b == hdr || !b.Dominates(hdr) || loop[b] {
			continue
		}
		outer := map[*ssa.BasicBlock]bool{b: true}
		var back func(x *ssa.BasicBlock)
		back = func(x *ssa.BasicBlock) {
			if outer[x] {
				return
			}
			outer[x] = true
			for _, p := range x.Preds {
				back(p)
			}
		}
		for _, p := range b.Preds {
			if b.Dominates(p) {
				back(p)
			}
		}
		if !outer[hdr] {
			continue
		}
		for x := range outer {
			br, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
			if !ok || outer[x.Succs[0]] && outer[x.Succs[1]] || loop[x] {
				continue
			}
			if c, ok := br.Cond.(*ssa.BinOp); ok && isIntT(c.X.Type()) {
				_, k1 := c.X.(*ssa.Const)
				_, k2 := c.Y.(*ssa.Const)
				if (k1 || k2) && countsEntries(c, b, outer, map[ssa.Value]bool{}) {
					return true
				}
			}
		}
	}
	return false
}

func isLenCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	bi, ok := c.Call.Value.(*ssa.Builtin)
	return ok && bi.Name() == "len"
}

func carried(v ssa.Value, hdr *ssa.BasicBlock) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.Phi:
				if x.Block() == hdr || walk(x) {
					return true
				}
			case *ssa.Store:
				if x.Val == v {
					return true
				}
			case *ssa.BinOp:
				if x.Op == token.ADD && walk(x) {
					return true
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && walk(x) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

func isCmp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

const varyRule = "no source of variation reaches a result that the reference semantics keeps free of it"

func runC03(c *Ctx) {
	var keys []string
	for k := range c.refFn {
		if c.refFn[k].Parent() == nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	n := 0
	for _, k := range keys {
		cur, ref := c.Func(k), c.refFn[k]
		if cur == nil {
			continue
		}
		c.Analysed(cur)
		where := c.Pos(cur.Pos())
		vs := c.variations(c.region(cur, false))
		n += len(vs)
		if len(vs) == 0 || c.Diff(k).V == ai.Same {
			c.Held(varyRule, k, where)
			continue
		}
		have := map[string]bool{}
		for _, v := range c.variations(c.region(ref, true)) {
			have[v.kind] = true
		}
		bad := false
		for _, v := range vs {
			if !have[v.kind] {
				bad = true
				c.Violate(varyRule, k, c.Pos(v.pos), "%s", fmt.Sprintf("%s %s, its reference semantics does not", k, v.kind))
			}
		}
		if !bad {
			c.Held(varyRule, k, where)
		}
	}
	c.Extra["variation_sites"] = n
}
