package goabnf

import strings "strings"

func vr_Grammar_DependencyGraph(g *Grammar) Depgraph {
	graph := Depgraph{}
	for _, corerule := range coreRules {
		graph[strings.ToLower(corerule.Name)] = &node{
			Rulename:     corerule.Name,
			Dependencies: vr__getDependencies(corerule.Alternation),
		}
	}
	for _, rule := range g.Rulemap {
		graph[strings.ToLower(rule.Name)] = &node{
			Rulename:     rule.Name,
			Dependencies: vr__getDependencies(rule.Alternation),
		}
	}
	return graph
}
