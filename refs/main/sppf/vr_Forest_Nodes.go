package goabnf

func vr_Forest_Nodes(f *Forest) int {
	if f.root == nil {
		return 0
	}
	seen := map[*gnode]bool{}
	var walk func(n *gnode)
	walk = func(n *gnode) {
		if seen[n] {
			return
		}
		seen[n] = true
		for _, pk := range n.packs {
			for _, c := range pk {
				walk(c)
			}
		}
	}
	walk(f.root)
	return len(seen)
}
