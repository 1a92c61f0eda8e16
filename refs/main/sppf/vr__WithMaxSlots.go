package goabnf

func vr__WithMaxSlots(n int) ForestOption { return func(c *forestConfig) { c.maxSlots = n } }
