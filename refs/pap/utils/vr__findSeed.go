package commands

import cli "github.com/urfave/cli/v2"
import rand "crypto/rand"

func vr__findSeed(ctx *cli.Context) int64 {
	if ctx.IsSet("seed") {
		return ctx.Int64("seed")
	}

	b := make([]byte, 1)
	rand.Read(b)

	return int64(b[0])
}
