package commands

import cli "github.com/urfave/cli/v2"
import fmt "fmt"
import goabnf "github.com/pandatix/go-abnf"

func vr__transitionGraph(ctx *cli.Context) error {
	b, err := vr__readInput(ctx)
	if err != nil {
		return err
	}

	g, err := goabnf.ParseABNF(b)
	if err != nil {
		return err
	}

	opts := []goabnf.TGOption{}
	if ctx.IsSet("deflate-rules") {
		opts = append(opts, goabnf.WithDeflateRules(true))
	}
	if ctx.IsSet("deflate-charvals") {
		opts = append(opts, goabnf.WithDeflateCharVals(true))
	}
	if ctx.IsSet("deflate-numvals") {
		opts = append(opts, goabnf.WithDeflateNumVals(true))
	}
	if ctx.IsSet("repetition-threshold") {
		opts = append(opts, goabnf.WithRepetitionThreshold(ctx.Int("repetition-threshold")))
	}

	tg, err := g.TransitionGraph(ctx.String("rulename"), opts...)
	if err != nil {
		return err
	}

	fmt.Printf("%s\n", tg.ToMermaid())
	return nil
}
