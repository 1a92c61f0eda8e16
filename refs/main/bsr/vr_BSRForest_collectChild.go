package goabnf

func vr_BSRForest_collectChild(f *BSRForest, s ssym, a, b int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
	if s.kind != symKind(0) {
		if s.kind == symKind(2) {
			return
		}
		*out = append(*out, &ParseTree{Start: a, End: b})
		return
	}
	id := bsrNodeID{nt: s.nt, l: a, r: b}
	if visited[id] {
		return
	}
	visited[id] = true

	for ai, prod := range f.sg.nts[s.nt].alts {
		csl := slot{s.nt, ai, len(prod)}
		if ks := f.index[bsrKey{csl, a, b}]; len(ks) > 0 {
			info := f.sg.nts[s.nt]
			if info.isRule {
				var kids []*ParseTree
				vr_BSRForest_collectElem(f, csl, a, ks[0], b, &kids, visited)
				*out = append(*out, &ParseTree{Rule: info.ruleName, Start: a, End: b, Children: kids})
			} else {
				vr_BSRForest_collectElem(f, csl, a, ks[0], b, out, visited)
			}
			visited[id] = false
			return
		}
	}
	visited[id] = false
}
