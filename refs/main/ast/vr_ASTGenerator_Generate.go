package goabnf

func vr_ASTGenerator_Generate(ag *ASTGenerator, tape []byte) []byte {
	return vr_ASTGenerator_walk(ag, &tapeSource{tape: tape})
}
