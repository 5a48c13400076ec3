// loccheck runs the checks of the location circuits: loccheck ID quick|thorough
package main

import (
	"verif/harness/loc"
	"verif/harness/run"
)

func main() { run.Main(loc.All) }
