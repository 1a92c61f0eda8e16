package goabnf

func vr__WithMaxDepth(n int) ASTGenOption {
	return astGenOptionFunc(func(g *ASTGenerator) {
		g.maxDepth = n
	})
}
