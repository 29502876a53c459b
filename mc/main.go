// Command mc runs one property check.
package main

import (
	"os"

	"verifmc/checks"
	"verifmc/core"
)

func main() {
	if 1 < len(os.Args) && os.Args[1] == "-c19" {
		checks.C19Drive(os.Args[2:])
		return
	}
	core.Main()
}
