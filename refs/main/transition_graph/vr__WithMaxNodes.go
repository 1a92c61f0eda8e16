package goabnf

func vr__WithMaxNodes(max int) TGOption {
	return maxNodesOption(max)
}
