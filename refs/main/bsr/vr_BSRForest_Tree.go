package goabnf

func vr_BSRForest_Tree(f *BSRForest) *ParseTree {
	if !vr_BSRForest_Valid(f) {
		return nil
	}
	sl, ks, ok := vr_BSRForest_startElems(f)
	if !ok {
		return nil
	}
	visited := map[bsrNodeID]bool{}
	return vr_BSRForest_emitSym(f, f.start, sl, ks[0], 0, f.n, visited)
}
