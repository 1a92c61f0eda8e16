package goabnf

func vr__WithRepMax(repMax int) repMaxOption {
	return repMaxOption(repMax)
}
