package commands

import cli "github.com/urfave/cli/v2"
import io "io"
import os "os"

func vr__readInput(ctx *cli.Context) ([]byte, error) {
	input := ctx.String("input")
	if input == "-" {

		return io.ReadAll(os.Stdin)
	}
	return os.ReadFile(input)
}
