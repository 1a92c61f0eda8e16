package goabnf

func vr__WithDeflateNumVals(deflate bool) TGOption {
	return deflateNumValsOption(deflate)
}
