package goabnf

import rand "math/rand"

func vr_ASTGenerator_GenerateRand(ag *ASTGenerator, r *rand.Rand) []byte {
	return vr_ASTGenerator_walk(ag, randSource{r: r})
}
