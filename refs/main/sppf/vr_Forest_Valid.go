package goabnf

func vr_Forest_Valid(f *Forest) bool { return f.root != nil }
