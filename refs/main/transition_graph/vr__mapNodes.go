package goabnf

func vr__mapNodes(mp map[string]*Node, node *Node) {
	if _, ok := mp[node.ID]; ok {
		return
	}
	mp[node.ID] = node
	for _, next := range node.Nexts {
		vr__mapNodes(mp, next)
	}
}
