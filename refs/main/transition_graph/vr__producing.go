package goabnf

func vr__producing(n *Node) bool {
	if n == emptyNode {
		return true
	}
	switch n.Elem.(type) {
	case ElemCharVal, ElemNumVal:
		return true
	default:
		return false
	}
}
