package goabnf

func vr__WithStableAddressing() GenOption {
	return genOptionFunc(func(g *Generator) {
		g.stableAddr = true
	})
}
