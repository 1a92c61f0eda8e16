package goabnf

func vr_gnode_addPack(n *gnode, children []*gnode) {
	for _, p := range n.packs {
		if len(p) != len(children) {
			continue
		}
		same := true
		for i := range p {
			if p[i] != children[i] {
				same = false
				break
			}
		}
		if same {
			return
		}
	}
	n.packs = append(n.packs, children)
}
