package main

import (
	_ "mqverif/checks/gormdb"
	"mqverif/core"
)

func main() { core.Main() }
