package goabnf

import slices "slices"

func vr__concatTransitionGraphs(prevI, prevO, currI, currO []*Node) (entrypoints []*Node, endpoints []*Node) {

	if slices.Contains(prevI, emptyNode) {
		for _, vprevI := range prevI {
			if vprevI == emptyNode {
				continue
			}
			entrypoints = append(entrypoints, vprevI)
		}
		entrypoints = append(entrypoints, currI...)
	} else {
		entrypoints = prevI
	}

	for _, vprevO := range prevO {
		if vprevO == emptyNode {
			continue
		}
		for _, vrepi := range currI {
			if vrepi == emptyNode {
				continue
			}
			vprevO.Nexts = append(vprevO.Nexts, vrepi)
		}
	}

	if slices.Contains(currI, emptyNode) {
		endpoints = append(endpoints, prevO...)
	}
	for _, vrepo := range currO {
		if vrepo == emptyNode {
			continue
		}
		endpoints = append(endpoints, vrepo)
	}

	return
}
