package goabnf

func vr_astGenOptionFunc_apply(f astGenOptionFunc, g *ASTGenerator) {
	f(g)
}
