package attack

import (
	"fmt"
	"math/big"
	"sync"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/frontend/frontendtype"
)

// Claim is a circuit asserting that body(In) == Out.
type Claim struct {
	In  []frontend.Variable
	Out []frontend.Variable `gnark:",public"`
	fn  Body
	pad bool
}

func (c *Claim) Define(api frontend.API) error {
	in := c.In
	if c.pad {
		// gnark complains about an empty slice of inputs
		api.AssertIsEqual(in[0], 0)
		in = nil
	}
	out := c.fn(api, in)
	if len(out) != len(c.Out) {
		return fmt.Errorf("%d outputs, claim has %d", len(out), len(c.Out))
	}
	for i := range out {
		api.AssertIsEqual(out[i], c.Out[i])
	}
	return nil
}

// Compile builds the real constraint system of body.
func Compile(field *big.Int, ft frontendtype.Type, nin, nout int, fn Body) (constraint.ConstraintSystem, error) {
	c := &Claim{In: make([]frontend.Variable, max(nin, 1)), Out: make([]frontend.Variable, nout), fn: fn, pad: nin == 0}
	if ft == frontendtype.SCS {
		return frontend.Compile(field, scs.NewBuilder, c)
	}
	return frontend.Compile(field, r1cs.NewBuilder, c, frontend.WithCompressThreshold(1000))
}

// Witness makes the full witness of a claim.
func Witness(field *big.Int, in, out []*big.Int) (witness.Witness, error) {
	c := &Claim{In: make([]frontend.Variable, max(len(in), 1)), Out: make([]frontend.Variable, len(out))}
	c.In[0] = 0
	for i := range in {
		c.In[i] = in[i]
	}
	for i := range out {
		c.Out[i] = out[i]
	}
	return frontend.NewWitness(c, field)
}

// Solve runs the real solver, with the forgery's hint overrides if any. It
// returns nil if the constraint system accepts.
//
// The solver does not tell which call it makes, only its inputs. Calls of the
// same hint with the same inputs are told apart by their order, and all
// choices are tried, first the one that replaces all of them.
func Solve(cs constraint.ConstraintSystem, w witness.Witness, f *Forgery) error {
	if f == nil {
		return solve(cs, w, nil, nil, nil)
	}
	which := make([]int, len(f.Calls))
	for i := range which {
		which[i] = -1
	}
	seen := make([]int, len(f.Calls))
	first := solve(cs, w, f, which, seen)
	if first == nil {
		return nil
	}
	for i := range which {
		which[i] = 0
	}
	for tries := 0; tries < 256; tries++ {
		for i := range seen {
			seen[i] = 0
		}
		if solve(cs, w, f, which, seen) == nil {
			return nil
		}
		i := 0
		for ; i < len(which); i++ {
			if which[i]++; which[i] < seen[i] {
				break
			}
			which[i] = 0
		}
		if i == len(which) {
			break
		}
	}
	return first
}

// solve replaces the which[i]-th call that looks like f.Calls[i], or all of
// them if which[i] < 0, and counts these calls in seen[i].
func solve(cs constraint.ConstraintSystem, w witness.Witness, f *Forgery, which, seen []int) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	opts := []solver.Option{}
	if f != nil {
		opts = append(opts, solver.WithNbTasks(1))
		var mu sync.Mutex
		byFn := map[solver.HintID][]int{}
		for i, c := range f.Calls {
			byFn[c.ID] = append(byFn[c.ID], i)
		}
		for id, calls := range byFn {
			honest := solver.GetRegisteredHint(id)
			calls := calls
			opts = append(opts, solver.OverrideHint(id, func(m *big.Int, in, out []*big.Int) error {
				mu.Lock()
				defer mu.Unlock()
				repl := -1
			next:
				for _, k := range calls {
					c := f.Calls[k]
					if len(c.In) != len(in) || len(c.Used) != len(out) {
						continue
					}
					for i := range in {
						if c.In[i].Cmp(in[i]) != 0 {
							continue next
						}
					}
					if (which[k] < 0 || which[k] == seen[k]) && repl < 0 {
						repl = k
					}
					seen[k]++
				}
				if repl < 0 {
					return honest(m, in, out)
				}
				for i := range out {
					out[i].Set(f.Calls[repl].Used[i])
				}
				return nil
			}))
		}
	}
	_, err = cs.Solve(w, opts...)
	return err
}

// BN254 is the field of the engine.
func BN254() *big.Int { return ecc.BN254.ScalarField() }
