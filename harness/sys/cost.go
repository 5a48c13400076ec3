package sys

import (
	"fmt"
	"math/rand"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/frontendtype"
	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/gadget"

	"verif/harness/fp"
	"verif/harness/ops"
	"verif/harness/rep"
)

func init() { All["B03"] = costs }

// costCircuit runs a random program and notes the cost reported at each step.
type costCircuit struct {
	In                           []frontend.Variable
	cfg                          ops.Cfg
	seed                         int64
	prog                         []string
	native, query, entry, finish uint
	steps, many, bulk            int
}

func (c *costCircuit) Define(api frontend.API) error {
	c.prog, c.steps = nil, 0
	rng := rand.New(rand.NewSource(c.seed))
	ctx := ops.Context(api, c.cfg)
	var v []float.FloatVar
	v = append(v, ctx.NewFloat(c.In[0]))
	if rng.Intn(2) == 0 {
		v = append(v, ctx.NewFloat(c.In[1]))
	}
	for i := 0; i < c.bulk; i++ {
		// bit lengths of a kind: every operation repeats its few
		k := rng.Intn(4)
		bits := uint(1 + int(uint64(c.seed)>>(8*k)&255)%70)
		ctx.Gadget.AssertBitLength(api.Add(c.In[0], api.Mul(c.In[1], i+2)), bits, []gadget.Mode{gadget.Loose, gadget.TightForSmallAbs, gadget.TightForUnknownRange}[(k+int(c.seed&7))%3])
	}
	n := rng.Intn(6) + c.many
	if c.bulk > 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		if rng.Intn(4) == 0 {
			bits := uint(1 + rng.Intn(70))
			m := []gadget.Mode{gadget.Loose, gadget.TightForSmallAbs, gadget.TightForUnknownRange}[rng.Intn(3)]
			c.prog = append(c.prog, fmt.Sprintf("bits(%d,%d)", bits, m))
			// a sum, so that it is no multiple of another checked value
			ctx.Gadget.AssertBitLength(api.Add(c.In[0], api.Mul(c.In[1], i+2)), bits, m)
			c.steps++
			continue
		}
		o := allOps[rng.Intn(len(allOps))]
		a := make([]float.FloatVar, o.Arity)
		for k := range a {
			a[k] = v[rng.Intn(len(v))]
		}
		c.prog = append(c.prog, o.Name)
		for _, x := range o.Run(ctx, a) {
			if y, ok := x.(float.FloatVar); ok {
				v = append(v, y)
			}
		}
		c.steps++
	}
	c.native = uint(api.(interface{ GetNbConstraints() int }).GetNbConstraints())
	c.query, c.entry, c.finish = ctx.Gadget.LookupQueryConstraints(), ctx.Gadget.LookupEntryConstraints(), ctx.Gadget.LookupFinalizeConstraints()
	return nil
}

// costs: the reported lookup costs are the constraints generated.
func costs(r *rep.R) {
	r.Rule = "one case is one random program and configuration compiled by gnark; non-trivial when its constraint count was compared with the sum of its own constraints and the reported lookup costs"
	r.Assume = []string{"counted without gnark's compression of long sums, whose extra constraints are gnark's choice"}
	n := r.N(1200, 60000)
	r.Parallel(n, func(i int) {
		rng := rand.New(rand.NewSource(int64(rep.Mix(uint64(r.Seed), rep.Str("B03"), uint64(i)) >> 1)))
		f := []fp.Fmt{fp.F32, fp.F64, fp.E5M2, fp.E4M4}[rng.Intn(4)]
		cfg := ops.Cfg{F: f, RS: uint(2 + rng.Intn(8)), FT: frontendtype.R1CS}
		if rng.Intn(10) == 0 {
			cfg.RS = uint(10 + rng.Intn(4))
		}
		c := &costCircuit{In: make([]frontend.Variable, 2), cfg: cfg, seed: rng.Int63()}
		cs, err := frontend.Compile(bn254(), r1cs.NewBuilder, c, frontend.IgnoreUnconstrainedInputs(), frontend.WithCompressThreshold(0))
		d := map[string]any{"config": cfg.String(), "program": c.prog}
		r.Eval(1)
		if err != nil {
			r.Violate("compile", fmt.Sprintf("%v %v does not compile: %v", cfg, c.prog, err), d)
			return
		}
		sum := c.native + c.query + c.entry + c.finish
		if i < 8 {
			r.Sample(fmt.Sprintf("%v %v: %d = %d + %d + %d + %d", cfg, c.prog, cs.GetNbConstraints(), c.native, c.query, c.entry, c.finish))
		}
		r.Distinct(rep.Mix(rep.Str(fmt.Sprint(cfg, c.prog))))
		r.Count("constraints counted", int64(cs.GetNbConstraints()))
		r.Count("operations", int64(c.steps))
		if uint(cs.GetNbConstraints()) != sum {
			r.Violate("cost", fmt.Sprintf("%v %v: %d constraints, but %d of its own and %d per query, %d per entry and %d final ones reported (%d)", cfg, c.prog, cs.GetNbConstraints(), c.native, c.query, c.entry, c.finish, sum), d)
		}
	})
}
