package checks

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"

	"verif/harness/attack"
	"verif/harness/fp"
	"verif/harness/mon"
	"verif/harness/ops"
	"verif/harness/rep"
)

// ordinal maps encodings to consecutive integers, infinities included.
func ordinal(f fp.Fmt, b uint64) int64 {
	if f.Sign(b) == 1 {
		return -int64(f.Abs(b)) - 1
	}
	return int64(b)
}

// verdict is what an equality assertion must do.
type verdict int

const (
	accept verdict = iota
	reject
	either
)

// eqKind is one equality assertion.
type eqKind struct {
	name string
	run  func(c *float.Context, x, y float.FloatVar)
	want func(f fp.Fmt, x, y uint64) verdict
	fmts []fp.Fmt
}

func acc(b bool) verdict {
	if b {
		return accept
	}
	return reject
}

func eqKinds() []eqKind {
	l := []eqKind{
		{"equal", (*float.Context).AssertIsEqual, func(f fp.Fmt, x, y uint64) verdict { return acc(f.Same(x, y)) }, []fp.Fmt{fp.F32, fp.F64, fp.E5M2}},
		{"ulp", (*float.Context).AssertIsEqualOrULP, func(f fp.Fmt, x, y uint64) verdict {
			if f.Same(x, y) {
				return accept
			}
			if f.IsNaN(x) || f.IsNaN(y) || f.Sign(x) != f.Sign(y) {
				return reject
			}
			d := ordinal(f, x) - ordinal(f, y)
			if d < -1 || d > 1 {
				return reject
			}
			if f.IsAbn(x) || f.IsAbn(y) || f.IsSub(x) || f.IsSub(y) || f.IsZero(x) || f.IsZero(y) {
				// next to each other, but whether subnormal neighbours and the
				// infinities' neighbours count is not promised
				return either
			}
			return accept
		}, []fp.Fmt{fp.F32, fp.F64, fp.E5M2}},
	}
	for _, tol := range []float64{2, 1, 0, 1e-6, 1e-12, 0x1p-52, 0.1, 1e-30} {
		tol := tol
		l = append(l, eqKind{fmt.Sprintf("tolerance64-%g", tol), func(c *float.Context, x, y float.FloatVar) { c.AssertIsEqualOrCustomULP64(x, y, tol) },
			func(f fp.Fmt, x, y uint64) verdict { return within(f, x, y, tol) }, []fp.Fmt{fp.F64}},
			eqKind{fmt.Sprintf("tolerance32-%g", tol), func(c *float.Context, x, y float.FloatVar) { c.AssertIsEqualOrCustomULP32(x, y, float32(tol)) },
				func(f fp.Fmt, x, y uint64) verdict { return within(f, x, y, float64(float32(tol))) }, []fp.Fmt{fp.F32}})
	}
	return l
}

func within(f fp.Fmt, x, y uint64, tol float64) verdict {
	if f.Same(x, y) {
		return accept
	}
	if f.IsNaN(x) || f.IsNaN(y) || f.Sign(x) != f.Sign(y) {
		return reject
	}
	return acc(math.Abs(f.Val(f.Sub(x, y))) <= tol)
}

// eqPair draws pairs that are equal, neighbours, or close to the tolerance.
func eqPair(g *fp.Gen, rng *rand.Rand, tol float64) (x, y uint64) {
	f := g.F
	x, y = g.Pair()
	switch rng.Intn(8) {
	case 0:
		y = x
	case 1:
		y = f.Step(x, int64(rng.Intn(5))-2)
	case 2:
		// around powers of two
		x = f.Pack(uint64(rng.Intn(2)), uint64(rng.Intn(1<<f.E)), 0)
		x = f.Step(x, int64(rng.Intn(3))-1)
		y = f.Step(x, int64(rng.Intn(5))-2)
	case 3:
		y = f.Neg(x)
	case 4:
		x = g.Special()
		y = f.Step(x, int64(rng.Intn(3))-1)
	case 5, 6:
		// at about the tolerance
		y = f.Of(f.Val(x) + tol*[]float64{1, -1, 0.5, 2, -2}[rng.Intn(5)])
		y = f.Step(y, int64(rng.Intn(5))-2)
		if rng.Intn(2) == 0 {
			x = f.Of(tol * (rng.Float64()*8 - 4))
			y = f.Step(f.Of(f.Val(x)+tol), int64(rng.Intn(3))-1)
		}
	}
	return
}

func equalityCheck(r *rep.R) {
	r.Rule = "each equality assertion on pairs that are identical, neighbours, sign or NaN variants, at the tolerance, or unrelated: accepted exactly when the reference says so, by the honest prover; for pairs to be rejected every hint output is also attacked; non-trivial when a verdict was observed"
	r.Assume = soundAssume
	kinds := eqKinds()
	n := r.N(13000, 800000)
	r.Parallel(n, func(i int) {
		rng := rngFor(r, "eq", i)
		k := kinds[rng.Intn(len(kinds))]
		if rng.Intn(2) == 0 {
			k = kinds[rng.Intn(2)]
		}
		f := k.fmts[rng.Intn(len(k.fmts))]
		g := fp.NewGen(int64(rep.Mix(uint64(r.Seed), rep.Str(r.ID), uint64(i))>>1), f)
		tol := 0.0
		fmt.Sscanf(k.name, "tolerance32-%g", &tol)
		fmt.Sscanf(k.name, "tolerance64-%g", &tol)
		x, y := eqPair(g, rng, tol)
		want := k.want(f, x, y)
		if want == either {
			r.Count("pairs with no promised verdict", 1)
			return
		}
		cfg := soundCfg(rng, f)
		body := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			ctx := ops.Context(api, cfg)
			a, b := ops.Float(api, in[0:4]), ops.Float(api, in[4:8])
			k.run(ctx, a, b)
			return []frontend.Variable{in[0]}
		}
		in := ops.Comps(f, []uint64{x, y})
		desc := fmt.Sprintf("%v %s(%#x=%v, %#x=%v)", cfg, k.name, x, f.Val(x), y, f.Val(y))
		out := []*big.Int{in[0]}
		if i < 10 {
			r.Sample(desc + map[verdict]string{accept: " accepted", reject: " rejected"}[want])
		}
		e := ops.NewEngine(cfg)
		fail := e.Run(func(api frontend.API) {
			v := make([]frontend.Variable, len(in))
			for j := range in {
				v[j] = e.Input(in[j])
			}
			body(api, v)
		})
		r.Eval(1)
		r.Distinct(rep.Mix(x, y, rep.Str(k.name), uint64(f.M)))
		real := i%60 == 0 || (fail == nil) != (want == accept)
		if real {
			r.Count("verdicts of the real solver", 1)
			err := realSolve(cfg, body, in, out)
			if (err == nil) != (want == accept) {
				r.Violate(k.name+"/"+map[bool]string{true: "accepts", false: "rejects"}[err == nil], fmt.Sprintf("%s: real solver says %v", desc, errString(err)), map[string]any{"case": desc})
				return
			}
			if (fail == nil) != (want == accept) {
				r.Broken("engine and real solver disagree: %s: %v", desc, fail)
			}
			return
		}
		if want == accept {
			r.Count("assertions that must hold", 1)
			return
		}
		r.Count("assertions that must fail", 1)
		if i%4 != 0 {
			return
		}
		st := attack.NewStats()
		fs, _ := attack.Run(body, in, &attack.Opts{MakeEngine: func() *mon.Engine { return ops.NewEngine(cfg) }, MaxBits: 2*int(f.M) + 8, TableBits: []int{int(f.Bits())}, AcceptAny: true, Thin: 5, Phase: i}, st)
		r.Eval(st.Runs)
		r.Count("tampered executions", int64(st.Runs))
		for _, fg := range fs {
			cs, err := attack.Compile(attack.BN254(), cfg.FT, len(in), 1, body)
			if err != nil {
				r.Broken("compile: %v", err)
				return
			}
			w, _ := attack.Witness(attack.BN254(), in, out)
			if attack.Solve(cs, w, fg) == nil {
				r.Violate(k.name+"/forged", fmt.Sprintf("%s: accepted by the real solver with %v", desc, fg.Changes), map[string]any{"case": desc})
				return
			}
			r.Count("forgeries not reproduced by the real solver", 1)
		}
	})
}

func errString(err error) string {
	if err == nil {
		return "accepted"
	}
	return trim(err)
}

func init() { All["S07"] = equalityCheck }
