package commands

import cli "github.com/urfave/cli/v2"
import fmt "fmt"
import goabnf "github.com/pandatix/go-abnf"

func vr__generate(ctx *cli.Context) error {
	b, err := vr__readInput(ctx)
	if err != nil {
		return err
	}

	g, err := goabnf.ParseABNF(b)
	if err != nil {
		return err
	}

	opts := []goabnf.GenerateOption{}
	if ctx.IsSet("rep-max") {
		opts = append(opts, goabnf.WithRepMax(ctx.Int("rep-max")))
	}
	if ctx.IsSet("threshold") {
		opts = append(opts, goabnf.WithThreshold(ctx.Int("threshold")))
	}
	out, err := g.Generate(vr__findSeed(ctx), ctx.String("rulename"), opts...)
	if err != nil {
		return err
	}

	fmt.Printf("%s\n", out)
	return nil
}
