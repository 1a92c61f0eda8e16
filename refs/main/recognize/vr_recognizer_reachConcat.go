package goabnf

func vr_recognizer_reachConcat(r *recognizer, c Concatenation, index int) map[int]bool {
	cur := map[int]bool{index: true}
	for _, rep := range c.Repetitions {
		next := map[int]bool{}
		for p := range cur {
			for e := range vr_recognizer_reachRep(r, rep, p) {
				next[e] = true
			}
		}
		cur = next
		if len(cur) == 0 {
			break
		}
	}
	return cur
}
