package goabnf

func vr__WithDeflateCharVals(deflate bool) TGOption {
	return deflateCharVals(deflate)
}
