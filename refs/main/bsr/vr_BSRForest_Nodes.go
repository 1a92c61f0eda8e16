package goabnf

func vr_BSRForest_Nodes(f *BSRForest) int { return len(f.set) }
