package goabnf

import fmt "fmt"

func vr_Generator_nearMissCandidates(g *Generator, src source, base []byte, trace []traceSeg) []candidate {
	var cs []candidate

	for _, seg := range trace {
		nv, isRange := vr__numvalRange(seg.elem)
		if !isRange {
			continue
		}
		for _, b := range []struct {
			r    rune
			what string
		}{
			{rune(nv.min - 1), "below"},
			{rune(nv.max + 1), "above"},
		} {
			if b.r < 0 || b.r > 0x10FFFF {
				continue
			}
			cand := vr__cloneBytes(base)
			repl := []byte(string(b.r))
			out := append(append(vr__cloneBytes(cand[:seg.off]), repl...), cand[seg.off+seg.length:]...)
			cs = append(cs, candidate{out, fmt.Sprintf("byte at offset %d is one %s num-val range %s", seg.off, b.what, nv.label)})
		}
	}

	if len(base) > 0 {
		pos := src.intn(len(base))
		for _, nb := range []byte{0x00, 0xFF, base[pos] ^ 0x20, base[pos] + 1, '!'} {
			if nb == base[pos] {
				continue
			}
			cand := vr__cloneBytes(base)
			cand[pos] = nb
			cs = append(cs, candidate{cand, fmt.Sprintf("byte at offset %d substituted with 0x%02x", pos, nb)})
		}
	}

	for _, n := range []int{1, 2, len(base) / 2, len(base) - 1} {
		if n <= 0 || n > len(base) {
			continue
		}
		cs = append(cs, candidate{vr__cloneBytes(base[:len(base)-n]), fmt.Sprintf("truncated by %d byte(s) (len %d)", n, len(base)-n)})
	}

	for _, nb := range []byte{0x00, '!', 0xFF, 'A'} {
		out := append(vr__cloneBytes(base), nb)
		cs = append(cs, candidate{out, fmt.Sprintf("trailing byte 0x%02x appended", nb)})
	}

	if len(base) >= 2 {
		pos := src.intn(len(base))
		out := append(vr__cloneBytes(base[:pos]), base[pos+1:]...)
		cs = append(cs, candidate{out, fmt.Sprintf("byte at offset %d deleted", pos)})
	}

	if len(cs) > 1 {
		k := src.intn(len(cs))
		cs = append(cs[k:], cs[:k]...)
	}
	return cs
}
