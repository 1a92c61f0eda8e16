package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"verif/checker/ai"
)

// groups lists, per property, the functions whose behaviour carries it
// (patterns over the keys of the reference semantics).
var groups = map[string][]string{}

func group(id string, pats ...string) {
	for _, p := range pats {
		groups[id] = append(groups[id], strings.Fields(p)...)
	}
}

// keysOf expands the patterns of a property.
func (r *Repo) keysOf(id string) (keys []string, gone []string) {
	closed := false
	for _, p := range groups[id] {
		if p == "CLOSE" {
			closed = true
			continue
		}
		n := 0
		for k := range r.Refs {
			if ok, _ := path.Match(p, k); ok {
				keys = append(keys, k)
				n++
			}
		}
		if n == 0 {
			gone = append(gone, p)
		}
	}
	if closed {
		// and what they call
		have := map[string]bool{}
		for _, k := range keys {
			have[k] = true
		}
		for i := 0; i < len(keys); i++ {
			f := r.refFn[keys[i]]
			if f == nil {
				continue
			}
			for k := range r.called(f, nil) {
				if !have[k] {
					have[k] = true
					keys = append(keys, k)
				}
			}
		}
	}
	sort.Strings(keys)
	out := keys[:0]
	for i, k := range keys {
		if i == 0 || k != keys[i-1] {
			out = append(out, k)
		}
	}
	return out, gone
}

const diffRule = "function keeps its reference semantics"

// diffGroup decides the function group of the property.
func (c *Ctx) diffGroup() {
	keys, gone := c.keysOf(c.Check.ID)
	for _, p := range gone {
		c.Undecided(diffRule, p, "", "no function matches")
	}
	known := refFindings(c.Check.ID)
	for _, k := range keys {
		d := c.Diff(k)
		if d.V == ai.Same {
			for _, t := range known[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.Check.ID, t, k)
			}
		}
		where := ""
		if d.CurFn != nil {
			where = c.Pos(d.CurFn.Pos())
			c.Analysed(d.CurFn)
		}
		switch {
		case d.Missing:
			c.Undecided(diffRule, k, "", "the function or its reference is gone")
		case d.V == ai.Same:
			c.Held(diffRule, k, where)
		case d.V == ai.Differs:
			var b strings.Builder
			n := 0
			for _, x := range d.Diffs {
				if x.V == ai.Differs {
					fmt.Fprintln(&b, x.String())
					if n++; n >= 3 {
						break
					}
				}
			}
			c.Violate(diffRule, k, where, "%s", b.String())
		default:
			s := ""
			if len(d.Diffs) > 0 {
				s = d.Diffs[0].String()
			}
			c.Undecided(diffRule, k, where, "%s", firstLine(s))
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

const diffText = "Abstract semantic differencing: every function carrying the property is interpreted over symbolic inputs (abstract interpretation of its SSA form: paths, memory effects, calls in order, loops as recurrences) and compared with its committed reference semantics, which was argued to satisfy the property; the function holds when every pair of overlapping path regions yields equal results, effects and calls, and is violated when some satisfiable region definitely disagrees."

func prop(id, rule string, extra func(c *Ctx), pats ...string) {
	group(id, pats...)
	text := rule
	if len(pats) > 0 {
		text += " " + diffText
	}
	register(&Check{ID: id, Rule: text,
		Trust: []string{"the reference semantics in /verif/refs (argued in DESIGN.md)", "models of the standard library in checker/ai/models.go"},
		Run: func(c *Ctx) {
			if extra != nil {
				extra(c)
			} else {
				runKinds(c)
			}
			c.diffGroup()
		}})
}
