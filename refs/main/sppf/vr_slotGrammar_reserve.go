package goabnf

func vr_slotGrammar_reserve(sg *slotGrammar, key, label string) (int, bool) {
	if id, ok := sg.index[key]; ok {
		return id, true
	}
	id := len(sg.nts)
	sg.nts = append(sg.nts, &sgNT{label: label})
	sg.index[key] = id
	return id, false
}
