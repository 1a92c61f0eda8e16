package goabnf

func vr_Forest_collectChild(f *Forest, c *gnode, into *[]*ParseTree, onStack map[*gnode]bool) {
	switch {
	case c.kind == gnodeKind(2):
		if c.End > c.Start {
			*into = append(*into, &ParseTree{Start: c.Start, End: c.End})
		}
	case c.kind == gnodeKind(0) && c.nt >= 0 && f.sg.nts[c.nt].isRule:
		if onStack[c] {
			*into = append(*into, &ParseTree{Rule: f.sg.nts[c.nt].ruleName, Start: c.Start, End: c.End})
			return
		}
		*into = append(*into, vr_Forest_emitSymbol(f, c, onStack))
	default:
		if onStack[c] {
			return
		}
		onStack[c] = true
		vr_Forest_collect(f, c, into, onStack)
		delete(onStack, c)
	}
}
