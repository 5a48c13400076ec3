package main

import (
	"bufio"
	"fmt"
	"math"
	"os"
)

// init serves the exported functions to the checker: one request per line.
func init() {
	if os.Getenv("VERIF_PROXIMITY") == "" {
		return
	}
	in := bufio.NewReader(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	for {
		var cmd string
		if _, err := fmt.Fscan(in, &cmd); err != nil {
			break
		}
		switch cmd {
		case "distance":
			var v [4]uint64
			for i := range v {
				fmt.Fscan(in, &v[i])
			}
			d := OldHaversine(math.Float64frombits(v[0]), math.Float64frombits(v[1]), math.Float64frombits(v[2]), math.Float64frombits(v[3]))
			fmt.Fprintln(out, math.Float64bits(d))
		case "write":
			var name string
			var n, single int
			fmt.Fscan(in, &name, &single, &n)
			var cells []HexCell
			for i := 0; i < n; i++ {
				var a, b uint64
				fmt.Fscan(in, &a, &b)
				cells = append(cells, HexCell{CenterLat: math.Float64frombits(a), CenterLon: math.Float64frombits(b)})
			}
			err := WriteHexCellsToFile(cells, name, single == 1)
			fmt.Fprintln(out, err == nil)
		}
		out.Flush()
	}
	os.Exit(0)
}
