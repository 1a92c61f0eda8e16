package goabnf

func vr_gllParser_getNodeP(p *gllParser, L slot, w, z *gnode) *gnode {
	prod := p.sg.nts[L.nt].alts[L.alt]
	betaEmpty := L.dot == len(prod)
	if L.dot == 1 && !betaEmpty {
		return z
	}
	start := z.Start
	if w != nil {
		start = w.Start
	}
	var k nodeKey
	if betaEmpty {
		k = nodeKey{kind: gnodeKind(0), nt: L.nt, start: start, end: z.End}
	} else {
		k = nodeKey{kind: gnodeKind(1), nt: -1, L: L, start: start, end: z.End}
	}
	y := vr_gllParser_findNode(p, k)
	if w != nil {
		vr_gnode_addPack(y, []*gnode{w, z})
	} else {
		vr_gnode_addPack(y, []*gnode{z})
	}
	return y
}
