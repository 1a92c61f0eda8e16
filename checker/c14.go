package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"strings"
)

const c14Rule = "emitted text is well-formed Go on the standard library"

// runC14 decides that the fixed text of generated parsers is valid Go and only
// imports the standard library.
func runC14(c *Ctx) {
	if c.RtErr != nil {
		c.Violate(c14Rule, "runtime text of generated parsers", "codegen.go", "%v", c.RtErr)
	} else {
		c.Held(c14Rule, "runtime text of generated parsers type-checks", "codegen.go")
	}
	// every import path the code generator writes
	for _, f := range c.MainP.Syntax {
		name := c.Fset.Position(f.Pos()).Filename
		if strings.HasPrefix(baseName(name), "zz_") {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			l, ok := n.(*ast.BasicLit)
			if !ok || l.Kind != token.STRING {
				return true
			}
			s, err := strconv.Unquote(l.Value)
			if err != nil || !strings.HasPrefix(strings.TrimSpace(s), "import") {
				return true
			}
			src := "package p\n" + s
			if strings.Count(s, "(") > strings.Count(s, ")") {
				src += "\n)"
			}
			pf, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.ImportsOnly)
			if err != nil {
				return true
			}
			for _, im := range pf.Imports {
				p, _ := strconv.Unquote(im.Path.Value)
				first := strings.SplitN(p, "/", 2)[0]
				c.Expect(!strings.Contains(first, "."), c14Rule, "import "+p, c.Pos(l.Pos()), "generated parsers would import %q", p)
			}
			return true
		})
	}
}

func baseName(p string) string { return p[strings.LastIndexByte(p, '/')+1:] }
