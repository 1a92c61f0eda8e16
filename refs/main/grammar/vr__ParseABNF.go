package goabnf

func vr__ParseABNF(input []byte, opts ...ABNFOption) (*Grammar, error) {
	o := vr__process(opts...)

	f, err := vr__Parse(input, ABNF, "rulelist")
	if err != nil {
		return nil, err
	}
	if !vr_Forest_Valid(f) {
		return nil, vr_Forest_ParseError(f)
	}
	if vr_Forest_Ambiguous(f) {
		return nil, &ErrMultipleSolutionsFound{}
	}

	g, err := vr__evalForest(input, f, o)
	if err != nil {
		return nil, err
	}

	if o.validate {
		if err := vr__SemvalABNF(g); err != nil {
			return nil, err
		}
	}
	return g, nil
}
