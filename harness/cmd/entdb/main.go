package main

import (
	_ "mqverif/checks/entdb"
	"mqverif/core"
)

func main() { core.Main() }
