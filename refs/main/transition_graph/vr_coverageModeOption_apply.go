package goabnf

func vr_coverageModeOption_apply(o coverageModeOption, opts *readerOptions) {
	opts.mode = CoverageMode(o)
}
