package goabnf

func vr_validateOption_apply(o validateOption, opts *abnfOptions) {
	opts.validate = bool(o)
}
