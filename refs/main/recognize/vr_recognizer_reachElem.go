package goabnf

import strconv "strconv"
import strings "strings"

func vr_recognizer_reachElem(r *recognizer, elem ElemItf, index int) map[int]bool {

	if rn, ok := elem.(ElemRulename); ok {
		if scc, isLR := r.leftRec[strings.ToLower(rn.Name)]; isLR {
			return vr_recognizer_reachLeftRec(r, strings.ToLower(rn.Name), scc, index)
		}
	}

	key := elem.String() + "@" + strconv.Itoa(index)
	if cached, ok := r.memo[key]; ok {
		return cached
	}
	if r.inProgress[key] {

		return map[int]bool{}
	}
	r.inProgress[key] = true
	reads := r.seedReads
	out := vr_recognizer_computeElem(r, elem, index)
	delete(r.inProgress, key)

	if r.seedReads == reads {
		r.memo[key] = vr__cloneSet(out)
	}
	return out
}
