package goabnf

import rand "math/rand"

func vr_Generator_GenerateRand(g *Generator, r *rand.Rand) []byte {
	return vr_Generator_walk(g, randSource{r: r}, nil)
}
