package goabnf

import strings "strings"

func vr__ruleCycleVisit(key string, nodeOf map[string]*node, inCycle, visited map[string]bool) bool {
	if visited[key] {
		return false
	}
	visited[key] = true
	nd := nodeOf[key]
	if nd == nil {

		return false
	}

	for _, dep := range nd.Dependencies {
		if strings.ToLower(dep) == key {
			return true
		}
	}
	if inCycle[key] {

		return true
	}

	for _, dep := range nd.Dependencies {
		dk := strings.ToLower(dep)
		if dk == key {
			continue
		}
		if vr__ruleCycleVisit(dk, nodeOf, inCycle, visited) {
			return true
		}
	}
	return false
}
