package zz_rt

func vr_Result_Tree(r *Result) *ParseTree {
	if !vr_Result_Valid(r) {
		return nil
	}
	for _, sl := range ntComplete[0] {
		if ks := r.index[bsrKey{sl, 0, r.n}]; len(ks) > 0 {
			var kids []*ParseTree
			vr_Result_collectElem(r, sl, 0, ks[0], r.n, &kids, map[nodeID]bool{})
			return &ParseTree{Rule: qNTs[0].ruleName, Start: 0, End: r.n, Children: kids}
		}
	}
	return nil
}
