package goabnf

func vr__sensequal(target, actual rune, sensitive bool) bool {
	if !sensitive {
		target, actual = vr__runeMin(target), vr__runeMin(actual)
	}
	return target == actual
}
