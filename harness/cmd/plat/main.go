package main

import (
	"vh/core"
	"vh/platcheck"
)

func main() { core.Main(platcheck.Engines(), nil) }
