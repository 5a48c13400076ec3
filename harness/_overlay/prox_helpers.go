package main

import (
	"bufio"
	"fmt"
	"math"
	"os"
)

// init serves the helpers around the H3 programs to the checker: one request
// per line.
func init() {
	if os.Getenv("VERIF_PROXIMITY") == "" {
		return
	}
	in := bufio.NewReader(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	for {
		var cmd string
		if _, err := fmt.Fscan(in, &cmd); err != nil {
			break
		}
		switch cmd {
		case "ijk", "cell":
			var res int
			var a, b uint64
			fmt.Fscan(in, &res, &a, &b)
			lat, lng := math.Float64frombits(a), math.Float64frombits(b)
			if cmd == "ijk" {
				i, j, k, err := executeLatLngToIJK("../h3-master/build/bin/latLngToCell", res, lat, lng)
				fmt.Fprintln(out, err == nil, i, j, k)
			} else {
				c, err := latLngToCell(res, lat, lng)
				fmt.Fprintln(out, err == nil, c)
			}
		case "center":
			var index string
			fmt.Fscan(in, &index)
			lat, lng, err := cellToLatLng(index)
			fmt.Fprintln(out, err == nil, math.Float64bits(lat), math.Float64bits(lng))
		case "boundary":
			var index string
			fmt.Fscan(in, &index)
			v, err := cellToBoundary(index)
			fmt.Fprint(out, err == nil)
			for _, p := range v {
				fmt.Fprint(out, " ", math.Float64bits(p[0]), " ", math.Float64bits(p[1]))
			}
			fmt.Fprintln(out)
		}
		out.Flush()
	}
	os.Exit(0)
}
