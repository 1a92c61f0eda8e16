package goabnf

func vr__edgeStr(from, to *Node) string {
	return vr__tgNodeID(from) + ">" + vr__tgNodeID(to)
}
