package main

import (
	"os"

	"vh/core"
	"vh/e2e"
	"vh/tree"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "rootworker" {
		e2e.RootWorker(os.Args[2])
	}
	core.Main(append(e2e.Engines(), tree.Engines()...), nil)
}
