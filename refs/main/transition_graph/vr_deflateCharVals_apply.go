package goabnf

func vr_deflateCharVals_apply(opt deflateCharVals, opts *tgoptions) {
	opts.deflateCharVals = bool(opt)
}
