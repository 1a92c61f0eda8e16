package goabnf

import fmt "fmt"
import format "go/format"

func vr__GenerateGoParser(g *Grammar, root, pkg string) ([]byte, error) {
	sg, err := vr__compileSlots(g, root, 65536)
	if err != nil {
		return nil, err
	}
	gen := &codegen{sg: sg, root: root, pkg: pkg}
	vr_codegen_assignSlots(gen)
	src := vr_codegen_emit(gen)
	formatted, ferr := format.Source([]byte(src))
	if ferr != nil {
		return []byte(src), fmt.Errorf("generated source failed to format: %w", ferr)
	}
	return formatted, nil
}
