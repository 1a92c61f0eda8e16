package goabnf

import slices "slices"

func vr_tgmachine_altGraph(m *tgmachine, alt Alternation) (entrypoints []*Node, endpoints []*Node, err error) {
	for _, concat := range alt.Concatenations {
		ci, co, err := vr_tgmachine_concatGraph(m, concat)
		if err != nil {
			return nil, nil, err
		}

		entryHasEmpty := slices.Contains(entrypoints, emptyNode)
		for _, vci := range ci {
			if vci == emptyNode && entryHasEmpty {
				continue
			}
			entrypoints = append(entrypoints, vci)
		}

		endHasEmpty := slices.Contains(endpoints, emptyNode)
		for _, vco := range co {
			if vco == emptyNode && endHasEmpty {
				continue
			}
			endpoints = append(endpoints, vco)
		}
	}
	return
}
