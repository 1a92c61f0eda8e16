package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// dump prints the partitions of one function, for developing rules.
func dumpFn(c *Ctx, fn *ssa.Function, in *ai.Interp) {
	for i, o := range in.Outcomes {
		fmt.Printf("--- %d %s @ %s\n", i, o.Kind, c.Pos(o.Pos))
		for _, l := range o.St.F.Lits() {
			n := ""
			if !l.Pos {
				n = "! "
			}
			fmt.Printf("    ? %s%s\n", n, l.T)
		}
		for _, e := range o.St.Trace {
			if e.Kind == "loop" {
				fmt.Printf("    loop %d:", e.Loop.Ord)
				for _, p := range e.Loop.Phis {
					fmt.Printf(" %s(%s)=%s init %s;", p.Phi.Comment, p.Phi.Name(), p.Sym, p.Init)
				}
				for _, h := range e.Loop.Heap {
					fmt.Printf(" heap %s.%d=%s init %s;", h.Root, h.Field, h.Sym, h.Init)
				}
				fmt.Println()
				continue
			}
			fmt.Printf("    ! %s\n", e)
		}
		for _, r := range o.Ret {
			fmt.Printf("    = %s\n", o.St.Deep(r))
		}
		for j, n := range o.Next {
			fmt.Printf("    next %s := %s\n", o.Loop.Phis[j].Phi.Comment, n)
		}
	}
	for _, u := range in.Undecided {
		fmt.Println("    UNDECIDED", u)
	}
}

func init() {
	register(&Check{ID: "DUMP", Run: func(c *Ctx) {
		for _, k := range dumpKeys() {
			fn := c.Func(k)
			if fn == nil {
				fmt.Println("no", k)
				continue
			}
			in := c.Interp(map[string]ai.Mode{"GetRule": ai.Pure, "numvalToRune": ai.Pure, "sensequal": ai.Pure})
			in.Run(fn, nil, ai.NewState())
			fmt.Println("=====", k)
			dumpFn(c, fn, in)
		}
	}})
}

func dumpKeys() []string { return splitEnv("DUMP") }
