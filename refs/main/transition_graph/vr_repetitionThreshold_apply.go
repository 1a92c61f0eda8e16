package goabnf

func vr_repetitionThreshold_apply(opt repetitionThreshold, opts *tgoptions) {
	opts.repetitionThreshold = int(opt)
}
