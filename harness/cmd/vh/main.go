// vh runs scenarios against the real programs and records what they did.
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh pipeline|... flags")
		os.Exit(3)
	}
	cmds := map[string]func([]string) error{"pipeline": pipeline, "fetch": fetch, "crl": crl, "roots": roots}
	f, ok := cmds[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(3)
	}
	if err := f(os.Args[2:]); err != nil {
		fmt.Fprintln(os.Stderr, "vh:", err)
		os.Exit(3)
	}
}
