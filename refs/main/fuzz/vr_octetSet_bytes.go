package goabnf

func vr_octetSet_bytes(s octetSet) []byte {
	var out []byte
	for b := range 256 {
		if vr_octetSet_has(s, byte(b)) {
			out = append(out, byte(b))
		}
	}
	return out
}
