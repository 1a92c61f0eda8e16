package goabnf

import slices "slices"

func vr__appendDeps(deps []string, ndeps ...string) []string {
	for _, ndep := range ndeps {
		if !slices.Contains(deps, ndep) {
			deps = append(deps, ndep)
		}
	}
	return deps
}
