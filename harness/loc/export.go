package loc

import (
	"math/big"
	"math/rand"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/frontendtype"

	"verif/harness/attack"
	"verif/harness/fp"
	"verif/harness/mon"
	"verif/harness/ops"
)

// Names of the location circuits.
var Names = []string{v64.name, v32.name, v32w.name}

func variantOf(name string) *variant {
	for _, v := range variants {
		if v.name == name {
			return v
		}
	}
	panic("no circuit " + name)
}

// Circuit returns the constructor of a location circuit.
func Circuit(name string) (fp.Fmt, func(lat, lng, res, i, j, k frontend.Variable) frontend.Circuit) {
	v := variantOf(name)
	return v.f, v.mk
}

// Point draws a location with the cell the circuit computes for it.
func Point(name string, rng *rand.Rand) (lat, lng uint64, res int, c IJK, ok bool) {
	v := variantOf(name)
	lat, lng, res, _ = v.point(rng, rng.Intn(8))
	out, fail, _ := v.cell(lat, lng, res, frontendtype.R1CS)
	if fail != nil {
		return
	}
	c, ok = ints(out)
	return
}

// Eval runs a body whose inputs are integers on the monitoring engine.
func Eval(cfg ops.Cfg, body attack.Body, in []*big.Int) ([]*big.Int, *mon.Failure) {
	return eval(cfg, body, in)
}
