package goabnf

func vr_maxNodesOption_apply(opt maxNodesOption, opts *tgoptions) {
	opts.maxNodes = int(opt)
}
