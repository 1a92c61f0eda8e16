package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// The command table of pap: what a command line means before any of the
// commands' own code runs. The initialiser of package commands is interpreted
// and every exported command is compared with the documented table.

type flagSpec struct {
	kind     string // type of the flag
	def      string // default, "" for the zero value
	required bool
}

type cmdSpec struct {
	action string // the function carrying it out
	flags  map[string]flagSpec
}

var inputFlag = flagSpec{kind: "StringFlag", def: `"-"`}
var ruleFlag = flagSpec{kind: "StringFlag", required: true}

var commandTable = map[string]cmdSpec{
	"validate": {action: "validate", flags: map[string]flagSpec{"input": inputFlag, "sem-val": {kind: "BoolFlag", def: "true"}}},
	"generate": {action: "generate", flags: map[string]flagSpec{"input": inputFlag, "rulename": ruleFlag,
		"seed": {kind: "Int64Flag"}, "rep-max": {kind: "IntFlag"}, "threshold": {kind: "IntFlag"}}},
	"regex": {action: "regex", flags: map[string]flagSpec{"input": inputFlag, "rulename": ruleFlag}},
	"transition-graph": {action: "transitionGraph", flags: map[string]flagSpec{"input": inputFlag, "rulename": ruleFlag,
		"deflate-rules": {kind: "BoolFlag"}, "deflate-charvals": {kind: "BoolFlag"}, "deflate-numvals": {kind: "BoolFlag"},
		"repetition-threshold": {kind: "IntFlag"}}},
}

const cmdRule = "command table: each command has its documented flags (type, default, whether required) and is carried out by its own function"

func zeroTerm(t *ai.Term) bool {
	return t == nil || t.IsNil() || t.IsInt() && t.K == 0 || t.IsStr() && t.S == "" || t.String() == "false"
}

// runCommands decides the command table.
func runCommands(c *Ctx) {
	runKinds(c)
	var u *Unit
	for _, x := range c.Units {
		if x.Name == "pap" {
			u = x
		}
	}
	if u == nil || u.Pkg.Func("init") == nil {
		c.Undecided(cmdRule, "pap", "", "package commands not found")
		return
	}
	st, ok := c.initStateOf(u.Pkg)
	if !ok {
		c.Undecided(cmdRule, "pap init", "", "the initialiser is not straight-line")
		return
	}
	c.Analysed(u.Pkg.Func("init"))
	seen := map[string]bool{}
	unread := false
	for _, name := range sortedKeys(u.Pkg.Members) {
		g, ok := u.Pkg.Members[name].(*ssa.Global)
		if !ok {
			continue
		}
		pt, ok := g.Type().(*types.Pointer).Elem().(*types.Pointer)
		if !ok || !strings.HasSuffix(pt.Elem().String(), "cli/v2.Command") {
			continue
		}
		where := c.Pos(g.Pos())
		v := st.Deep(st.Load(ai.Global(g), ai.Global(g).T))
		if v.Op == "ptrto" {
			v = v.Args[0]
		}
		f := fieldsOf(v)
		if f == nil || !f["Name"].IsStr() {
			c.Undecided(cmdRule, name, where, "not a literal command: %s", firstLine(v.String()))
			unread = true
			continue
		}
		cn := f["Name"].S
		spec, ok := commandTable[cn]
		if !ok {
			continue // a command the table does not know
		}
		seen[cn] = true
		// flags
		fl := f["Flags"]
		if fl == nil || fl.Op != "seq" && !fl.IsNil() {
			c.Undecided(cmdRule, cn+" flags", where, "not a literal list: %s", firstLine(fl.String()))
		} else {
			got := map[string]bool{}
			opaque := false
			for _, a := range fl.Args {
				if a.Op == "el" {
					a = a.Args[0]
				}
				if a.Op != "iface" {
					if !strings.Contains(a.String(), "HelpFlag") {
						opaque = true
					}
					continue
				}
				kind := a.T.String()
				kind = kind[strings.LastIndexByte(kind, '.')+1:]
				b := a.Args[0]
				if b.Op == "ptrto" {
					b = b.Args[0]
				}
				ff := fieldsOf(b)
				if ff == nil || !ff["Name"].IsStr() {
					opaque = true
					continue
				}
				fn := ff["Name"].S
				want, ok := spec.flags[fn]
				if !ok {
					continue
				}
				got[fn] = true
				what := cn + " --" + fn
				if kind != want.kind {
					c.Violate(cmdRule, what, where, "the flag is a %s, not a %s", kind, want.kind)
					continue
				}
				val := ff["Value"]
				if want.def == "" {
					if v := ff["Value"]; !zeroTerm(v) && (v.IsInt() || v.IsStr() || v.String() == "true") {
						c.Violate(cmdRule, what, where, "default %s instead of none", v)
						continue
					} else if !zeroTerm(v) {
						c.Undecided(cmdRule, what, where, "default %s", v)
						continue
					}
				} else if s := termLit(val); s != want.def {
					if s == "" {
						c.Undecided(cmdRule, what, where, "default %s", val)
					} else {
						c.Violate(cmdRule, what, where, "default %s instead of %s", s, want.def)
					}
					continue
				}
				req := ff["Required"]
				if want.required && zeroTerm(req) || !want.required && req != nil && req.String() == "true" {
					c.Violate(cmdRule, what, where, "required: %s, documented as %v", req, want.required)
					continue
				}
				c.Held(cmdRule, what, where)
			}
			for _, k := range sortedKeys(spec.flags) {
				if got[k] {
					continue
				}
				if opaque {
					c.Undecided(cmdRule, cn+" --"+k, where, "not found among the flags that can be read")
				} else {
					c.Violate(cmdRule, cn+" --"+k, where, "the command has no such flag")
				}
			}
		}
		// action
		ac := f["Action"]
		an := ""
		if ac != nil {
			an = strings.TrimPrefix(ac.String(), "func:")
		}
		switch {
		case ac == nil || ac.IsNil():
			c.Violate(cmdRule, cn+" action", where, "the command does nothing")
		case an == spec.action:
			c.Held(cmdRule, cn+" action", where)
		default:
			for on, o := range commandTable {
				if on != cn && an == o.action {
					c.Violate(cmdRule, cn+" action", where, "the command is carried out by %s", an)
					an = ""
					break
				}
			}
			if an != "" {
				c.Undecided(cmdRule, cn+" action", where, "carried out by %s", an)
			}
		}
	}
	for _, k := range sortedKeys(commandTable) {
		if !seen[k] {
			if unread {
				c.Undecided(cmdRule, k, "", "not found among the commands that can be read")
			} else {
				c.Violate(cmdRule, k, "cmd/pap/commands", "no command of that name")
			}
		}
	}
}

func termLit(t *ai.Term) string {
	switch {
	case t == nil:
		return ""
	case t.IsStr():
		return fmt.Sprintf("%q", t.S)
	case t.IsInt():
		return fmt.Sprint(t.K)
	case t.String() == "true" || t.String() == "false":
		return t.String()
	}
	return ""
}
