package goabnf

func vr__process(opts ...ABNFOption) *abnfOptions {
	o := &abnfOptions{
		validate:     true,
		redefineCore: false,
	}
	for _, opt := range opts {
		opt.apply(o)
	}
	return o
}
