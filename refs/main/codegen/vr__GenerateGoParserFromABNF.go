package goabnf

import fmt "fmt"

func vr__GenerateGoParserFromABNF(abnfSource []byte, root, pkg string, opts ...ABNFOption) ([]byte, error) {
	g, err := vr__ParseABNF(abnfSource, opts...)
	if err != nil {
		return nil, fmt.Errorf("parse ABNF source: %w", err)
	}
	return vr__GenerateGoParser(g, root, pkg)
}
