package goabnf

func vr__WithRedefineCoreRules(redefine bool) ABNFOption {
	return redefineCoreOption(redefine)
}
