package goabnf

func vr_recognizer_reachAlt(r *recognizer, alt Alternation, index int) map[int]bool {
	out := map[int]bool{}
	for _, c := range alt.Concatenations {
		for e := range vr_recognizer_reachConcat(r, c, index) {
			out[e] = true
		}
	}
	return out
}
