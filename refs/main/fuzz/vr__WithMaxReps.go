package goabnf

func vr__WithMaxReps(n int) GenOption {
	return genOptionFunc(func(g *Generator) {
		g.maxReps = n
	})
}
