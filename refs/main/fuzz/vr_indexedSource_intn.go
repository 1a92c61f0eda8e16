package goabnf

func vr_indexedSource_intn(s *indexedSource, n int) int {
	if n <= 1 {
		return 0
	}
	off := s.i * 4
	s.i++
	v := 0
	for k := range 4 {
		b := 0
		if off+k < len(s.tape) {
			b = int(s.tape[off+k])
		}
		v = v<<8 | b
		if v < 0 {
			v &= 0x7fffffff
		}
	}
	return v % n
}
