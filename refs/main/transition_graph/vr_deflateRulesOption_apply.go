package goabnf

func vr_deflateRulesOption_apply(opt deflateRulesOption, opts *tgoptions) {
	opts.deflateRules = bool(opt)
}
