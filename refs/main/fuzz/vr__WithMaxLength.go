package goabnf

func vr__WithMaxLength(n int) GenOption {
	return genOptionFunc(func(g *Generator) {
		g.maxLength = n
	})
}
