package goabnf

func vr__repNullable(g *Grammar, null map[string]bool, rep Repetition) bool {
	if rep.Min == 0 {
		return true
	}
	return vr__elemNullable(g, null, rep.Element)
}
