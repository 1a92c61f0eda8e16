package goabnf

func vr_ErrMultipleSolutionsFound_Error(err ErrMultipleSolutionsFound) string {
	return "multiple solutions found, this should not happen. Please open an issue. This could eventually need an Erratum from IETF tracking"
}
