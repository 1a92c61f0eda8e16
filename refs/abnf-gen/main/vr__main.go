package main

import fmt "fmt"
import os "os"

func vr__main() {
	if err := vr__run(); err != nil {
		fmt.Fprintln(os.Stderr, "abnf-gen:", err)
		os.Exit(1)
	}
}
