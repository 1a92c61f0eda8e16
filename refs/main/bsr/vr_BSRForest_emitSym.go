package goabnf

func vr_BSRForest_emitSym(f *BSRForest, nt int, sl slot, k, l, r int, visited map[bsrNodeID]bool) *ParseTree {
	var kids []*ParseTree
	vr_BSRForest_collectElem(f, sl, l, k, r, &kids, visited)
	info := f.sg.nts[nt]
	if !info.isRule {

		return &ParseTree{Start: l, End: r, Children: kids}
	}
	return &ParseTree{Rule: info.ruleName, Start: l, End: r, Children: kids}
}
