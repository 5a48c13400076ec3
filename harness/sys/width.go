package sys

import (
	"fmt"
	"math/rand"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/frontend/frontendtype"

	"verif/harness/fp"
	"verif/harness/ops"
	"verif/harness/rep"
)

func init() { All["B04"] = widths }

// widths: the automatic table width costs hardly more than the best fixed one.
func widths(r *rep.R) {
	r.Rule = "one case is one program and constraint system, compiled by gnark with the automatic and with every fixed table width; non-trivial when the constraint counts were compared"
	r.Assume = []string{"the documented cost estimate counts a limb too many for some modes: up to 7% over the best width was seen on the repaired tree in long runs, 25% (and 16 constraints) are tolerated"}
	n := r.N(160, 4000)
	var worst [2]float64
	var mu = make(chan struct{}, 1)
	r.Parallel(n, func(i int) {
		rng := rand.New(rand.NewSource(int64(rep.Mix(uint64(r.Seed), rep.Str("B04"), uint64(i)) >> 1)))
		f := []fp.Fmt{fp.F32, fp.F64, fp.E5M2}[rng.Intn(3)]
		ft := fts[i%2]
		seed := rng.Int63()
		nb := frontend.NewBuilder(r1cs.NewBuilder)
		system := "R1CS"
		if ft == frontendtype.SCS {
			nb, system = scs.NewBuilder, "PLONK"
		}
		many, bulk := 1, 0
		switch i / 2 % 4 {
		case 0:
			many = rng.Intn(30)
		case 1:
			bulk = 1 << rng.Intn(13)
			bulk += rng.Intn(bulk)
		case 2:
			bulk = 1 + rng.Intn(30)
		}
		var prog []string
		size := func(w uint) int {
			c := &costCircuit{In: make([]frontend.Variable, 2), cfg: ops.Cfg{F: f, RS: w, FT: ft}, seed: seed, many: many, bulk: bulk}
			cs, err := frontend.Compile(bn254(), nb, c, frontend.IgnoreUnconstrainedInputs())
			if err != nil {
				r.Violate("compile", fmt.Sprintf("%v width %d, %v and %d bit length checks: %v", f, w, c.prog, bulk, err), nil)
				return 0
			}
			prog = c.prog
			r.Count("circuits compiled", 1)
			return cs.GetNbConstraints()
		}
		auto := size(0)
		best, at := 1<<60, uint(0)
		for w := uint(2); w < 14; w++ {
			if s := size(w); s < best {
				best, at = s, w
			}
		}
		r.Eval(1)
		r.Distinct(rep.Mix(uint64(seed), uint64(many), uint64(bulk)))
		r.Count(fmt.Sprintf("best width %d", at), 1)
		mu <- struct{}{}
		if q := float64(auto) / float64(best); q > worst[i%2] {
			worst[i%2] = q
		}
		<-mu
		if i < 8 {
			r.Sample(fmt.Sprintf("%s %v %v, %d bit length checks: automatic %d, best %d at width %d", system, f, prog, bulk, auto, best, at))
		}
		if float64(auto) > 1.25*float64(best)+16 {
			r.Violate("width/"+system, fmt.Sprintf("%s, %v, %v and %d bit length checks: %d constraints with the automatic table width, but %d with width %d", system, f, prog, bulk, auto, best, at),
				map[string]any{"system": system, "format": fmt.Sprint(f), "program": prog, "checks": bulk, "seed": seed})
		}
	})
	r.Count("largest excess R1CS (per mille)", int64((worst[0]-1)*1000))
	r.Count("largest excess PLONK (per mille)", int64((worst[1]-1)*1000))
}
