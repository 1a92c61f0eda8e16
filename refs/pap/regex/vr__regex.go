package commands

import cli "github.com/urfave/cli/v2"
import fmt "fmt"
import goabnf "github.com/pandatix/go-abnf"

func vr__regex(ctx *cli.Context) error {
	b, err := vr__readInput(ctx)
	if err != nil {
		return err
	}

	g, err := goabnf.ParseABNF(b)
	if err != nil {
		return err
	}

	out, err := g.Regex(ctx.String("rulename"))
	if err != nil {
		return err
	}

	fmt.Printf("%s\n", out)
	return nil
}
