package goabnf

func vr__WithMaxRegexLen(n int) RegexOption {
	return regexOptionFunc(func(o *regexOptions) { o.maxLen = n })
}
