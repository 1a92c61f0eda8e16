package goabnf

func vr__WithMaxForestNodes(n int) ForestOption { return func(c *forestConfig) { c.maxNodes = n } }
