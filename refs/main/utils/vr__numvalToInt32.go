package goabnf

import math "math"

func vr__numvalToInt32(str, base string) int32 {
	v, ok := vr__numvalToUint64(str, base)
	if !ok || v > math.MaxInt32 {
		return math.MaxInt32
	}
	return int32(v)
}
