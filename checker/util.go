package main

import (
	"os"
	"sort"
	"strings"
)

func splitEnv(k string) []string {
	var out []string
	for _, s := range strings.Split(os.Getenv(k), ",") {
		if s != "" {
			out = append(out, s)
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
