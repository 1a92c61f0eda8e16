package goabnf

func vr__WithRepetitionThreshold(threshold int) TGOption {
	return repetitionThreshold(threshold)
}
