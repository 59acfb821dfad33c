package main

import (
	_ "mqverif/checks/lang"
	"mqverif/core"
)

func main() { core.Main() }
