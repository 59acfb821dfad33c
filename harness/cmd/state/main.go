package main

import (
	"os"

	"mqverif/checks/state"
	"mqverif/core"
)

func main() {
	if len(os.Args) == 5 && os.Args[1] == "fresh" {
		state.Fresh(os.Args[2:])
		return
	}
	core.Main()
}
