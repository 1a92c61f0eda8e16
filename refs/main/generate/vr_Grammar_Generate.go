package goabnf

import rand "math/rand"

func vr_Grammar_Generate(g *Grammar, seed int64, rulename string, opts ...GenerateOption) ([]byte, error) {
	if err := vr__checkCanGenerateSafely(g, rulename); err != nil {
		return nil, err
	}

	rand := rand.NewSource(seed)

	options := &genOpts{
		repMax:    16,
		threshold: 256,
	}
	for _, opt := range opts {
		opt.apply(options)
	}

	rule := vr__GetRule(rulename, g.Rulemap)
	out := []byte{}
	vr__generateAlt(rand, g, &out, rule.Alternation, options)
	return out, nil
}
