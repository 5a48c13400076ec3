// zkcheck runs the check of one property: zkcheck ID quick|thorough
package main

import (
	"verif/harness/checks"
	"verif/harness/run"
)

func main() { run.Main(checks.All) }
