// Package run is the main program of the checkers.
package run

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"

	"github.com/consensys/gnark/logger"

	"verif/harness/rep"
)

// Main runs the check of one property: ID quick|thorough
func Main(all map[string]func(r *rep.R)) {
	logger.Disable()
	if len(os.Args) < 2 {
		var ids []string
		for k := range all {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(ids)
		os.Exit(2)
	}
	id := os.Args[1]
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	run, ok := all[id]
	if !ok {
		fmt.Println("no check for", id)
		os.Exit(2)
	}
	if p := os.Getenv("VERIF_CPUPROFILE"); p != "" {
		w, _ := os.Create(p)
		pprof.StartCPUProfile(w)
		rep.AtExit = pprof.StopCPUProfile
	}
	r := rep.New(id, tier, seed)
	run(r)
	r.Finish()
}
