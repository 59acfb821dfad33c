package main

import (
	_ "mqverif/checks/steps"
	"mqverif/core"
)

func main() { core.Main() }
