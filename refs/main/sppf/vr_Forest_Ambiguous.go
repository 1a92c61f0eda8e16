package goabnf

func vr_Forest_Ambiguous(f *Forest) bool {
	if f.root == nil {
		return false
	}
	seen := map[*gnode]bool{}
	var walk func(n *gnode) bool
	walk = func(n *gnode) bool {
		if seen[n] {
			return false
		}
		seen[n] = true
		if len(n.packs) > 1 {
			return true
		}
		for _, pk := range n.packs {
			for _, c := range pk {
				if walk(c) {
					return true
				}
			}
		}
		return false
	}
	return walk(f.root)
}
