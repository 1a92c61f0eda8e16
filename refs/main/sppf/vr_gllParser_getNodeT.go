package goabnf

func vr_gllParser_getNodeT(p *gllParser, start, end int) *gnode {
	return vr_gllParser_findNode(p, nodeKey{kind: gnodeKind(2), nt: -1, start: start, end: end})
}
