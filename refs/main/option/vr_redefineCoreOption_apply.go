package goabnf

func vr_redefineCoreOption_apply(o redefineCoreOption, opts *abnfOptions) {
	opts.redefineCore = bool(o)
}
