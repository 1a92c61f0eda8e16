package goabnf

func vr_deflateNumValsOption_apply(opt deflateNumValsOption, opts *tgoptions) {
	opts.deflateNumVals = bool(opt)
}
