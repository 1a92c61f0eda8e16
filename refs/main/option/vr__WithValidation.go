package goabnf

func vr__WithValidation(validate bool) ABNFOption {
	return validateOption(validate)
}
