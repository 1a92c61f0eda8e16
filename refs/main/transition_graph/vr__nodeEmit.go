package goabnf

import utf8 "unicode/utf8"

func vr__nodeEmit(node *Node, tpos int32) (prod []byte, vtotal int32) {
	if node == emptyNode {
		return nil, 1
	}
	switch v := node.Elem.(type) {
	case ElemCharVal:
		if v.Sensitive {
			for _, val := range v.Values {
				prod = append(prod, string(val)...)
			}
			return prod, 1
		}
		var numVar int
		for _, r := range v.Values {
			if (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') {
				numVar++
			}
		}

		if numVar > 30 {
			numVar = 30
		}
		vtotal = int32(1) << uint(numVar)
		bit := uint(0)
		for _, r := range v.Values {
			isLower := r >= 'a' && r <= 'z'
			isUpper := r >= 'A' && r <= 'Z'
			if !isLower && !isUpper {
				prod = append(prod, string(r)...)
				continue
			}
			lower := r
			if isUpper {
				lower = lower - 'A' + 'a'
			}
			upper := r
			if isLower {
				upper = upper - 'a' + 'A'
			}
			if (tpos>>bit)&1 == 1 {
				prod = append(prod, string(upper)...)
			} else {
				prod = append(prod, string(lower)...)
			}
			bit++
		}
		return prod, vtotal

	case ElemNumVal:
		switch v.Status {
		case Status(0):
			for _, elem := range v.Elems {
				r := vr__numvalToRune(elem, v.Base)
				prod = append(prod, []byte(string(r))...)
			}
			return prod, 1
		case Status(1):
			min, max := vr__numvalToInt32(v.Elems[0], v.Base), vr__numvalToInt32(v.Elems[1], v.Base)

			if max > utf8.MaxRune {
				max = utf8.MaxRune
			}
			if min > utf8.MaxRune || min > max {
				return nil, 1
			}
			r := rune(min + tpos)
			return []byte(string(r)), max - min + 1
		}
	}
	return nil, 1
}
