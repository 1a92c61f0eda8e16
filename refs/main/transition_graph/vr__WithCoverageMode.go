package goabnf

func vr__WithCoverageMode(mode CoverageMode) ReaderOption {
	return coverageModeOption(mode)
}
