package goabnf

func vr_TransitionGraph_Reader(tg *TransitionGraph, opts ...ReaderOption) *TransitionGraphReader {
	ro := readerOptions{mode: CoverageMode(0)}
	for _, o := range opts {
		o.apply(&ro)
	}
	return &TransitionGraphReader{tg: tg, mode: ro.mode}
}
