package goabnf

func vr_repMaxOption_apply(opt repMaxOption, opts *genOpts) {
	opts.repMax = int(opt)
}
