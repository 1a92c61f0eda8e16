package goabnf

func vr_tapeSource_intn(s *tapeSource, n int) int {
	if n <= 1 {
		return 0
	}

	width := 1
	for max := n; max > 256; max = (max + 255) / 256 {
		width++
	}
	v := 0
	for i := 0; i < width; i++ {
		b := 0
		if s.pos < len(s.tape) {
			b = int(s.tape[s.pos])
			s.pos++
		}
		v = v<<8 | b
		if v < 0 {
			v &= 0x7fffffff
		}
	}
	return v % n
}
