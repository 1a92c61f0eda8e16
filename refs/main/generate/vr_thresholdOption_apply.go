package goabnf

func vr_thresholdOption_apply(opt thresholdOption, opts *genOpts) {
	opts.threshold = int(opt)
}
