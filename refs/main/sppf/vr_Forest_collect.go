package goabnf

func vr_Forest_collect(f *Forest, n *gnode, into *[]*ParseTree, onStack map[*gnode]bool) {
	if len(n.packs) == 0 {
		if n.kind == gnodeKind(2) && n.End > n.Start {
			*into = append(*into, &ParseTree{Start: n.Start, End: n.End})
		}
		return
	}
	for _, c := range n.packs[0] {
		vr_Forest_collectChild(f, c, into, onStack)
	}
}
