package goabnf

func vr_regexOptionFunc_applyRegex(f regexOptionFunc, o *regexOptions) { f(o) }
