// syscheck runs the checks of the system around the circuits: syscheck ID quick|thorough
package main

import (
	"os"

	"verif/harness/run"
	"verif/harness/sys"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "child" {
		sys.Child(os.Args[2:])
		return
	}
	run.Main(sys.All)
}
