package goabnf

func vr__generateKeepGoing(i, torep, minrep, lenout, threshold int) bool {

	if i == 0 && minrep == 0 && lenout >= threshold {
		return false
	}
	return i < torep
}
