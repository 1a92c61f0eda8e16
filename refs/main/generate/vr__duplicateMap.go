package goabnf

import maps "maps"

func vr__duplicateMap[T comparable, V any](m map[T]V) map[T]V {
	n := make(map[T]V, len(m))
	maps.Copy(n, m)
	return n
}
