package goabnf

func vr_Forest_emitSymbol(f *Forest, n *gnode, onStack map[*gnode]bool) *ParseTree {
	t := &ParseTree{Start: n.Start, End: n.End}
	if n.kind == gnodeKind(0) && n.nt >= 0 && f.sg.nts[n.nt].isRule {
		t.Rule = f.sg.nts[n.nt].ruleName
	}
	onStack[n] = true
	vr_Forest_collect(f, n, &t.Children, onStack)
	delete(onStack, n)
	return t
}
