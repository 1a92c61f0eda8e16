package goabnf

func vr_Generator_NearMiss(g *Generator, tape []byte) (production []byte, label string, ok bool) {
	src := &tapeSource{tape: tape}
	var trace []traceSeg
	base := vr_Generator_walk(g, src, &trace)

	for _, c := range vr_Generator_nearMissCandidates(g, src, base, trace) {
		if c.bytes == nil || string(c.bytes) == string(base) {
			continue
		}
		valid, err := vr_Grammar_IsValid(g.tg.grammar, g.tg.rulename, c.bytes)
		if err == nil && !valid {
			return c.bytes, c.label, true
		}
	}
	return nil, "", false
}
