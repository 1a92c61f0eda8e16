package goabnf

func vr__WithMaxSteps(n int) GenOption {
	return genOptionFunc(func(g *Generator) {
		g.maxSteps = n
	})
}
