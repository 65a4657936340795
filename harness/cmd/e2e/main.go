package main

import (
	"os"

	"vh/core"
	"vh/e2e"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "rootworker" {
		e2e.RootWorker(os.Args[2])
	}
	core.Main(e2e.Engines(), nil)
}
