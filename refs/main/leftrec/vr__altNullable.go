package goabnf

func vr__altNullable(g *Grammar, null map[string]bool, alt Alternation) bool {
	for _, c := range alt.Concatenations {
		nullable := true
		for _, rep := range c.Repetitions {
			if !vr__repNullable(g, null, rep) {
				nullable = false
				break
			}
		}
		if nullable {
			return true
		}
	}
	return false
}
