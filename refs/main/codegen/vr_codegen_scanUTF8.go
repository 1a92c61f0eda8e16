package goabnf

func vr_codegen_scanUTF8(c *codegen) {
	for _, nt := range c.sg.nts {
		for _, prod := range nt.alts {
			for _, s := range prod {
				if s.kind != symKind(1) {
					continue
				}
				switch v := s.term.(type) {
				case ElemNumVal:
					if v.Status == Status(1) {
						c.usesUTF8 = true
					}
				case ElemCharVal:
					for _, r := range v.Values {
						if r > 0x7f {
							c.usesUTF8 = true
						}
					}
				}
			}
		}
	}
}
