package goabnf

func vr_Forest_ParseError(f *Forest) *ParseError {
	if vr_Forest_Valid(f) {
		return nil
	}
	return vr__newParseError(f.input, f.maxPos, f.expected)
}
