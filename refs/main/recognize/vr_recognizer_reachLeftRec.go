package goabnf

import strconv "strconv"

func vr_recognizer_reachLeftRec(r *recognizer, name string, scc []string, index int) map[int]bool {
	sidx := "@" + strconv.Itoa(index)
	key := name + sidx
	if cached, ok := r.memo[key]; ok {
		return cached
	}
	if seed, ok := r.growing[key]; ok {
		r.seedReads++
		return seed
	}
	reads := r.seedReads

	keys := make([]string, len(scc))
	for i, x := range scc {
		keys[i] = x + sidx
		r.growing[keys[i]] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i, x := range scc {
			rule := vr__GetRule(x, r.g.Rulemap)
			if rule == nil {
				continue
			}
			ns := vr_recognizer_reachAlt(r, rule.Alternation, index)
			cur := r.growing[keys[i]]
			for e := range ns {
				if !cur[e] {
					cur[e] = true
					changed = true
				}
			}
		}
	}

	r.seedReads = reads
	var result map[int]bool
	for i, x := range scc {
		v := r.growing[keys[i]]
		delete(r.growing, keys[i])
		r.memo[keys[i]] = vr__cloneSet(v)
		if x == name {
			result = vr__cloneSet(v)
		}
	}
	return result
}
