package zz_rt

func vr_Result_collectChild(r *Result, s qSym, a, b int, out *[]*ParseTree, visited map[nodeID]bool) {
	if s.kind != 0 {
		if s.kind == 2 {
			return
		}
		*out = append(*out, &ParseTree{Start: a, End: b})
		return
	}
	id := nodeID{sl: -1, nt: s.nt, l: a, r: b}
	if visited[id] {
		return
	}
	visited[id] = true
	for _, sl := range ntComplete[s.nt] {
		if ks := r.index[bsrKey{sl, a, b}]; len(ks) > 0 {
			if qNTs[s.nt].isRule {
				var kids []*ParseTree
				vr_Result_collectElem(r, sl, a, ks[0], b, &kids, visited)
				*out = append(*out, &ParseTree{Rule: qNTs[s.nt].ruleName, Start: a, End: b, Children: kids})
			} else {
				vr_Result_collectElem(r, sl, a, ks[0], b, out, visited)
			}
			visited[id] = false
			return
		}
	}
	visited[id] = false
}
