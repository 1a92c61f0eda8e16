package goabnf

func vr__WithThreshold(threshold int) thresholdOption {
	return thresholdOption(threshold)
}
