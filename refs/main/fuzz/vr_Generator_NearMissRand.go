package goabnf

import rand "math/rand"

func vr_Generator_NearMissRand(g *Generator, r *rand.Rand) (production []byte, label string, ok bool) {

	tape := make([]byte, 64)
	r.Read(tape)
	return vr_Generator_NearMiss(g, tape)
}
