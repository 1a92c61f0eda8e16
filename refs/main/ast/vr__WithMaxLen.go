package goabnf

func vr__WithMaxLen(n int) ASTGenOption {
	return astGenOptionFunc(func(g *ASTGenerator) {
		g.maxLen = n
	})
}
