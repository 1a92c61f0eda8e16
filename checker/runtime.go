package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/checker/ai"
)

// The generated parsers share a runtime that codegen.go holds as text. It is
// assembled here into a package of its own, with stand-ins for the parts that
// depend on the grammar, so that it is analysed like any other code.

// template is a long string constant of package goabnf.
type template struct{ name, text string }

// templates finds the string constants (or variables initialised with string
// literals) of the repository root that hold Go source text.
func templates(dir string) ([]template, error) {
	fset := token.NewFileSet()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var out []template
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range file.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.CONST && gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for i, v := range vs.Values {
					if i >= len(vs.Names) {
						break
					}
					if t, ok := foldString(v); ok && len(t) > 800 && strings.Contains(t, "\nfunc ") {
						out = append(out, template{vs.Names[i].Name, t})
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out, nil
}

func foldString(e ast.Expr) (string, bool) {
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.STRING {
			s, err := strconv.Unquote(x.Value)
			return s, err == nil
		}
	case *ast.ParenExpr:
		return foldString(x.X)
	case *ast.BinaryExpr:
		if x.Op == token.ADD {
			a, ok1 := foldString(x.X)
			b, ok2 := foldString(x.Y)
			return a + b, ok1 && ok2
		}
	}
	return "", false
}

const rtStubs = `
func (p *parser) process(d desc) {
	p.work = append(p.work, d)
	p.pop(d.u, d.i)
	p.record(d.L, d.i, d.i, d.i)
	p.create(d.L, d.u, d.i, d.rc)
}

func (p *parser) seed() { p.add(0, p.u0, 0, 0) }

const gRootName = ""
const gStart = 0

var slotInfo = []sInfo{}
var ntComplete = [][]int{}
var qNTs = []qNT{}
`

// runtimeSource assembles the runtime of generated parsers.
func runtimeSource(dir string) ([]byte, error) {
	ts, err := templates(dir)
	if err != nil {
		return nil, err
	}
	if len(ts) == 0 {
		return nil, fmt.Errorf("no runtime text found")
	}
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.text)
		b.WriteString("\n")
	}
	body := b.String()
	var imp []string
	for pkg, path := range map[string]string{"errors": "errors", "big": "math/big", "utf8": "unicode/utf8", "bytes": "bytes", "strings": "strings", "fmt": "fmt", "sort": "sort", "slices": "slices", "maps": "maps", "unicode": "unicode"} {
		if regexp.MustCompile(`\b` + pkg + `\.[A-Z]`).MatchString(body) {
			imp = append(imp, strconv.Quote(path))
		}
	}
	sort.Strings(imp)
	src := "package zz_rt\n\nimport (\n\t" + strings.Join(imp, "\n\t") + "\n)\n" + body + rtStubs
	if _, err := parser.ParseFile(token.NewFileSet(), "runtime.go", src, 0); err != nil {
		return nil, fmt.Errorf("the runtime text of generated parsers does not parse: %v", err)
	}
	// In comparisons of the emitting code the runtime text stands for itself.
	for _, t := range ts {
		ai.StrAlias[t.text] = "«" + t.name + "»"
	}
	return []byte(src), nil
}

var _ = constant.MakeBool
