// The simulator's driver: generates cases, executes each in fresh processes,
// judges them, minimises and replays what fails, and writes the evidence.
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim unit|check|replay|gen ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "unit":
		unitMain()
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "gen":
		os.Exit(genMain(os.Args[2:]))
	}
	os.Exit(2)
}
