package goabnf

func vr_Generator_Generate(g *Generator, tape []byte) []byte {
	if g.stableAddr {
		return vr_Generator_walk(g, &indexedSource{tape: tape}, nil)
	}
	return vr_Generator_walk(g, &tapeSource{tape: tape}, nil)
}
