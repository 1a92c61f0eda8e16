package goabnf

func vr__tgNodeID(n *Node) string {
	if n == nil {
		return ""
	}
	return n.ID
}
