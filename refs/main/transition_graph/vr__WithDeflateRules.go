package goabnf

func vr__WithDeflateRules(deflate bool) TGOption {
	return deflateRulesOption(deflate)
}
