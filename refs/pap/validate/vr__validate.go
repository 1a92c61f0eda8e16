package commands

import cli "github.com/urfave/cli/v2"
import fmt "fmt"
import goabnf "github.com/pandatix/go-abnf"

func vr__validate(ctx *cli.Context) error {
	b, err := vr__readInput(ctx)
	if err != nil {
		return err
	}

	opts := []goabnf.ABNFOption{}
	if ctx.IsSet("sem-val") {
		opts = append(opts, goabnf.WithValidation(ctx.Bool("sem-val")))
	}
	g, err := goabnf.ParseABNF(b, opts...)
	if err != nil {
		return err
	}
	fmt.Println(g.PrettyPrint())

	return err
}
