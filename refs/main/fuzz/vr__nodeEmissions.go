package goabnf

import utf8 "unicode/utf8"

func vr__nodeEmissions(n *Node) ([]emission, bool) {
	switch v := n.Elem.(type) {
	case ElemCharVal:
		e := emission{}
		for _, r := range v.Values {
			if !v.Sensitive && ((r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z')) {
				lo, up := r, r
				if lo >= 'A' && lo <= 'Z' {
					lo = lo - 'A' + 'a'
				}
				if up >= 'a' && up <= 'z' {
					up = up - 'a' + 'A'
				}
				var s octetSet
				vr_octetSet_add(&s, byte(lo))
				vr_octetSet_add(&s, byte(up))
				e.pos = append(e.pos, s)
			} else {
				for _, b := range []byte(string(r)) {
					var s octetSet
					vr_octetSet_add(&s, b)
					e.pos = append(e.pos, s)
				}
			}
		}
		return []emission{e}, true

	case ElemNumVal:
		switch v.Status {
		case Status(0):
			e := emission{}
			for _, el := range v.Elems {
				r := vr__numvalToRune(el, v.Base)
				if !utf8.ValidRune(r) {

					return nil, false
				}
				for _, b := range []byte(string(r)) {
					var s octetSet
					vr_octetSet_add(&s, b)
					e.pos = append(e.pos, s)
				}
			}
			return []emission{e}, true
		case Status(1):
			min, max := vr__numvalToInt32(v.Elems[0], v.Base), vr__numvalToInt32(v.Elems[1], v.Base)

			if max > utf8.MaxRune {
				max = utf8.MaxRune
			}
			if min > utf8.MaxRune || min > max {
				return nil, false
			}
			if max <= 0x7f {
				var s octetSet
				for b := min; b <= max && b <= 0x7f; b++ {
					vr_octetSet_add(&s, byte(b))
				}
				return []emission{{pos: []octetSet{s}}}, true
			}
			if max-min+1 > 65536 {
				return nil, false
			}
			byLead := map[string]*emission{}
			for r := min; r <= max; r++ {
				if !utf8.ValidRune(r) {
					continue
				}
				bs := []byte(string(rune(r)))
				lead := string(bs[:len(bs)-1])
				e := byLead[lead]
				if e == nil {
					e = &emission{pos: make([]octetSet, len(bs))}
					byLead[lead] = e
				}
				for j, b := range bs {
					vr_octetSet_add(&e.pos[j], b)
				}
			}
			out := make([]emission, 0, len(byLead))
			for _, e := range byLead {
				out = append(out, *e)
			}
			return out, len(out) > 0
		}
	}
	return nil, false
}
