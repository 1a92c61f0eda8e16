package goabnf

func vr_genOptionFunc_apply(f genOptionFunc, g *Generator) {
	f(g)
}
