package sys

import (
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
)

func attackSolve(cs constraint.ConstraintSystem, w any, opts ...solver.Option) error {
	_, err := cs.Solve(w.(witness.Witness), opts...)
	return err
}
