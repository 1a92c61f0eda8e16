package goabnf

func vr_ASTGenerator_over(ag *ASTGenerator, out *[]byte, depth int) bool {
	return depth >= ag.maxDepth || len(*out) >= ag.maxLen
}
