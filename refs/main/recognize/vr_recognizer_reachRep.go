package goabnf

import maps "maps"

func vr_recognizer_reachRep(r *recognizer, rep Repetition, index int) map[int]bool {
	ends := map[int]bool{}
	if rep.Min == 0 {
		ends[index] = true
	}

	level := map[int]bool{index: true}

	seen := map[int]bool{index: true}

	if rep.Max != int(-1) && rep.Min > rep.Max {
		return ends
	}

	for c := 1; ; c++ {
		if rep.Max != int(-1) && c > rep.Max {
			break
		}
		next := map[int]bool{}
		for p := range level {
			for e := range vr_recognizer_reachElem(r, rep.Element, p) {
				next[e] = true
			}
		}
		if len(next) == 0 {
			break
		}

		stable := maps.Equal(next, level)
		if c >= rep.Min || stable {
			for e := range next {
				ends[e] = true
			}
		}
		grew := false
		for e := range next {
			if !seen[e] {
				seen[e] = true
				grew = true
			}
		}
		level = next

		if stable || (!grew && c >= rep.Min) {
			break
		}
	}
	return ends
}
