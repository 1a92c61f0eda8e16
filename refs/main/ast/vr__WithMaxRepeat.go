package goabnf

func vr__WithMaxRepeat(n int) ASTGenOption {
	return astGenOptionFunc(func(g *ASTGenerator) {
		g.maxRepeat = n
	})
}
