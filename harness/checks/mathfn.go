package checks

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"
	maths "github.com/tumberger/zk-Location/math"

	"verif/harness/attack"
	"verif/harness/fp"
	"verif/harness/mon"
	"verif/harness/ops"
	"verif/harness/rep"
)

// fn is a function of the math package with its accuracy.
type fn struct {
	name  string
	f     fp.Fmt
	arity int
	run   func(c *float.Context, a []float.FloatVar) float.FloatVar
	ref   func(x []float64) float64
	// abs bounds the absolute error, in units of 2^-M
	abs float64
	// rel bounds the relative error, in units of 2^-M, where relOK says so
	rel   float64
	relOK func(x []float64) bool
	// domain of finite operands; special operands are in special
	domain func(x []float64) bool
	gen    func(rng *rand.Rand, f fp.Fmt) []uint64
}

func one1(g func(*float.Context, float.FloatVar) float.FloatVar) func(c *float.Context, a []float.FloatVar) float.FloatVar {
	return func(c *float.Context, a []float.FloatVar) float.FloatVar { return g(c, a[0]) }
}

func genReal(rng *rand.Rand, f fp.Fmt, lim float64) uint64 {
	emax := float64(f.EMax())
	var x float64
	switch rng.Intn(6) {
	case 0, 1:
		x = rng.Float64() * math.Min(lim, 8)
	case 2:
		x = math.Exp2((2*rng.Float64() - 1) * (emax - 1))
	case 3:
		x = math.Exp2((2*rng.Float64() - 1) * 12)
	case 4:
		// next to a point where the algorithm changes
		b := f.Of([]float64{1, math.Pi / 2, math.Pi, math.Pi / 4, 0.5, math.Sqrt(3)}[rng.Intn(6)])
		x = f.Val(f.Step(b, int64(rng.Intn(9)-4)))
	case 5:
		x = f.Val([]uint64{0, 1, 2, 1<<f.M - 1, 1 << f.M, f.Inf(0) - 1, f.Of(1), f.Of(math.Pi), f.Of(math.Pi / 2)}[rng.Intn(9)])
	}
	b := f.Of(x)
	if rng.Intn(2) == 0 {
		b = f.Neg(b)
	}
	if a := math.Abs(f.Val(b)); !(a <= lim) {
		return genReal(rng, f, lim)
	}
	return b
}

func genAtan(rng *rand.Rand, f fp.Fmt) []uint64 {
	if rng.Intn(20) == 0 {
		return []uint64{abnormal(rng, f)}
	}
	return []uint64{genReal(rng, f, math.MaxFloat64)}
}

// abnormal is an infinity or a NaN of either sign.
func abnormal(rng *rand.Rand, f fp.Fmt) uint64 {
	return []uint64{f.Inf(0), f.Inf(1), f.NaN(), f.NaN() | 1, f.NaN() | f.Inf(1)}[rng.Intn(5)]
}

func genSin(rng *rand.Rand, f fp.Fmt) []uint64 {
	return []uint64{genReal(rng, f, f.Val(f.Of(math.Pi)))}
}

func genAtan2(rng *rand.Rand, f fp.Fmt) []uint64 {
	x := genReal(rng, f, math.MaxFloat64)
	y := genReal(rng, f, math.MaxFloat64)
	switch rng.Intn(4) {
	case 0:
		// a quotient near a given one
		y = f.Of(f.Val(x) * math.Tan((2*rng.Float64()-1)*math.Pi))
	case 1:
		x, y = f.Of(rng.NormFloat64()), f.Of(rng.NormFloat64())
	case 2:
		s := []uint64{0, f.Neg(0), f.Of(1), f.Of(-1), x}
		x, y = s[rng.Intn(5)], s[rng.Intn(5)]
	}
	if k := rng.Intn(30); k < 3 {
		// infinities and NaN of either sign in either place or both
		if k != 1 {
			x = abnormal(rng, f)
		}
		if k != 0 {
			y = abnormal(rng, f)
		}
	}
	return []uint64{y, x}
}

var mathFns = map[string][]*fn{
	"M02": {
		{name: "AtanRemez64", f: fp.F64, arity: 1, run: one1(maths.AtanRemez64), ref: func(x []float64) float64 { return math.Atan(x[0]) }, abs: 4.5, gen: genAtan},
		{name: "AtanRemez32", f: fp.F32, arity: 1, run: one1(maths.AtanRemez32), ref: func(x []float64) float64 { return math.Atan(x[0]) }, abs: 3, gen: genAtan},
		{name: "Atan2", f: fp.F64, arity: 2, run: func(c *float.Context, a []float.FloatVar) float.FloatVar { return maths.Atan2(c, a[0], a[1]) },
			ref: func(x []float64) float64 {
				if x[0] == 0 && x[1] == 0 || math.IsInf(x[0], 0) && math.IsInf(x[1], 0) {
					return math.NaN()
				}
				// Go returns the wrong sign when y/x underflows
				return math.Copysign(math.Atan2(x[0], x[1]), x[0])
			}, abs: 6, gen: genAtan2},
	},
	"M03": {
		{name: "SinTaylor64", f: fp.F64, arity: 1, run: one1(maths.SinTaylor64), ref: func(x []float64) float64 { return math.Sin(x[0]) }, abs: 5, rel: 4.5,
			relOK: func(x []float64) bool { a := math.Abs(x[0]); return a <= math.Pi/2 && a > 1e-300 }, gen: genSin},
		{name: "SinTaylor32", f: fp.F32, arity: 1, run: one1(maths.SinTaylor32), ref: func(x []float64) float64 { return math.Sin(x[0]) }, abs: 5, rel: 3,
			relOK: func(x []float64) bool { a := math.Abs(x[0]); return a <= math.Pi/2 && a > 1e-36 }, gen: genSin},
	},
}

func (t *fn) body(cfg ops.Cfg) attack.Body {
	return func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		ctx := ops.Context(api, cfg)
		a := make([]float.FloatVar, t.arity)
		for i := range a {
			a[i] = ops.Float(api, in[4*i:4*i+4])
		}
		return ops.Flatten([]any{t.run(ctx, a)})
	}
}

// number reads a canonical component vector; ok is false if it is not canonical.
func number(f fp.Fmt, v []*big.Int) (x float64, b uint64, ok bool) {
	for i := range v {
		if !v[i].IsInt64() {
			return 0, 0, false
		}
	}
	s, e, m, a := v[0].Int64(), v[1].Int64(), v[2].Int64(), v[3].Int64()
	switch {
	case s>>1 != 0 || a>>1 != 0:
		return 0, 0, false
	case a == 1 && m == 0:
		b = f.NaN()
	case a == 1:
		b = f.Inf(uint64(s))
	default:
		x := math.Ldexp(float64(m), int(e)-int(f.M))
		if s == 1 {
			x = -x
		}
		b = f.Of(x)
		if m == 0 && s == 1 {
			b = f.Neg(0)
		}
	}
	c := f.Decode(b).Big()
	for i := range v {
		if i == 0 && f.IsNaN(b) {
			continue
		}
		if c[i].Cmp(v[i]) != 0 {
			return 0, 0, false
		}
	}
	return f.Val(b), b, true
}

func runBody(e *mon.Engine, body attack.Body, in []*big.Int) (out []*big.Int, fail *mon.Failure) {
	fail = e.Run(func(api frontend.API) {
		w := make([]frontend.Variable, len(in))
		for i := range in {
			w[i] = e.Input(in[i])
		}
		for _, v := range body(api, w) {
			out = append(out, e.SignedBig(v))
		}
	})
	return
}

// accuracy checks functions against the mathematical ones.
func accuracy(r *rep.R, fns []*fn, nq, nt int) {
	r.Rule = "one case is one function and operand tuple; non-trivial when the circuit produced a value that was compared with the mathematical function"
	r.Assume = []string{"Go's math package is accurate to well below the bounds"}
	n := r.N(nq, nt)
	r.Parallel(n, func(i int) {
		rng := rngFor(r, "acc", i)
		t := fns[i%len(fns)]
		in := t.gen(rng, t.f)
		cfg := pickCfg(rng, t.f)
		x := make([]float64, len(in))
		for k := range in {
			x[k] = t.f.Val(in[k])
		}
		desc := fmt.Sprintf("%s(%v) bits %#x", t.name, x, in)
		if i < 10 {
			r.Sample(cfg.String() + " " + desc)
		}
		d := map[string]any{"config": cfg.String(), "case": desc}
		var out []*big.Int
		var fail *mon.Failure
		e := ops.NewEngine(cfg)
		if rng.Intn(3) == 0 {
			// operands allocated from encodings
			fail = e.Run(func(api frontend.API) {
				ctx := ops.Context(api, cfg)
				a := make([]float.FloatVar, t.arity)
				for k := range a {
					a[k] = ops.Input(e, ctx, t.f, in[k], ops.Mode(rng.Intn(3)))
				}
				for _, v := range ops.Flatten([]any{t.run(ctx, a)}) {
					out = append(out, e.SignedBig(v))
				}
			})
		} else {
			out, fail = runBody(e, t.body(cfg), ops.Comps(t.f, in))
		}
		r.Eval(1)
		r.Count("constraints observed", int64(e.NAssert+e.NRange))
		if fail != nil {
			r.Violate("honest/"+t.name, fmt.Sprintf("%v %s: honest prover rejected: %v", cfg, desc, fail), d)
			return
		}
		got, _, ok := number(t.f, out)
		if !ok {
			r.Violate("canonical/"+t.name, fmt.Sprintf("%v %s: the result %v is not a valid number", cfg, desc, out), d)
			return
		}
		want := t.ref(x)
		r.Distinct(rep.Mix(append([]uint64{rep.Str(t.name)}, in...)...))
		r.Count("results compared: "+t.name, 1)
		if want != want || got != got {
			if (want != want) != (got != got) {
				r.Violate("nan/"+t.name, fmt.Sprintf("%v %s: %v instead of %v", cfg, desc, got, want), d)
			}
			return
		}
		u := math.Ldexp(1, -int(t.f.M))
		err := math.Abs(got-want) / u
		if !(err <= t.abs) {
			r.Violate("accuracy/"+t.name, fmt.Sprintf("%v %s: %v instead of %v, off by %.4g units of precision (bound %v)", cfg, desc, got, want, err, t.abs), d)
			return
		}
		r.Max("largest absolute error, 1/1000 of the precision: "+t.name, int64(err*1000))
		if t.rel > 0 && t.relOK(x) {
			rel := math.Abs((got-want)/want) / u
			if !(rel <= t.rel) {
				r.Violate("accuracy/"+t.name, fmt.Sprintf("%v %s: %v instead of %v, relative error %.4g units of precision (bound %v)", cfg, desc, got, want, rel, t.rel), d)
				return
			}
			r.Max("largest relative error, 1/1000 of the precision: "+t.name, int64(rel*1000))
		}
	})
}

// horner: polynomial evaluation equals Horner's scheme in IEEE arithmetic.
func horner(r *rep.R) {
	r.Rule = "one case is one polynomial, point, evaluation function and configuration; non-trivial when the circuit's value was compared bit for bit with Horner's scheme in native arithmetic"
	r.Assume = []string{"zeros of either sign count as equal"}
	n := r.N(9000, 600000)
	r.Parallel(n, func(i int) {
		rng := rngFor(r, "horner", i)
		f := fp.F64
		if i%4 == 3 {
			f = fp.F32
		}
		g := fp.NewGen(int64(rep.Mix(uint64(r.Seed), rep.Str(r.ID), uint64(i))>>1), f)
		cfg := pickCfg(rng, f)
		deg := rng.Intn(12)
		co := make([]uint64, deg+1)
		pick := func() uint64 {
			switch rng.Intn(6) {
			case 0:
				return g.Any()
			case 1:
				return f.Of(float64(rng.Intn(21) - 10))
			case 2:
				return f.Of(math.Copysign(0, rng.NormFloat64()))
			case 3:
				return g.Finite()
			}
			return f.Of(rng.NormFloat64() * math.Exp(4*rng.NormFloat64()))
		}
		for k := range co {
			co[k] = pick()
		}
		at := pick()
		for f.IsAbn(at) {
			at = pick()
		}
		if deg > 2 && rng.Intn(2) == 0 {
			at = f.Of(rng.NormFloat64())
		}
		which := "EvalK"
		if f == fp.F64 && i%2 == 0 {
			which = "Eval"
		}
		want := f.Of(0)
		for k := range co {
			c := co[k]
			if which == "Eval" {
				c = co[len(co)-1-k]
			}
			want = f.Add(f.Mul(want, at), c)
		}
		cm := ops.Mode(rng.Intn(3))
		xm := ops.Mode(rng.Intn(3))
		e := ops.NewEngine(cfg)
		var out []*big.Int
		fail := e.Run(func(api frontend.API) {
			ctx := ops.Context(api, cfg)
			p := make(maths.Polynomial, len(co))
			for k := range p {
				p[k] = ops.Input(e, ctx, f, co[k], cm)
			}
			x := ops.Input(e, ctx, f, at, xm)
			var y float.FloatVar
			if which == "Eval" {
				y = p.Eval(ctx, x)
			} else {
				y = p.EvalK(ctx, x, 1)
			}
			for _, v := range ops.Flatten([]any{y}) {
				out = append(out, e.SignedBig(v))
			}
		})
		desc := fmt.Sprintf("%s of %#x at %#x (%v)", which, co, at, f.Val(at))
		if i < 10 {
			r.Sample(cfg.String() + " " + desc)
		}
		r.Eval(1)
		r.Count("constraints observed", int64(e.NAssert+e.NRange))
		d := map[string]any{"config": cfg.String(), "case": desc}
		if fail != nil {
			r.Violate("honest/"+which, fmt.Sprintf("%v %s: honest prover rejected: %v", cfg, desc, fail), d)
			return
		}
		_, got, ok := number(f, out)
		r.Distinct(rep.Mix(append([]uint64{at, rep.Str(which)}, co...)...))
		r.Count(fmt.Sprintf("polynomials compared: %s %s", which, f.Name), 1)
		if !ok || !f.Same(got, want) && !(f.IsZero(got) && f.IsZero(want)) {
			r.Violate("value/"+which, fmt.Sprintf("%v %s: %v (%#x) instead of %v (%#x)", cfg, desc, out, got, f.Val(want), want), d)
		}
	})
}

// mathSound attacks the math functions.
func mathSound(r *rep.R) {
	r.Rule, r.Assume = soundRule, soundAssume
	fns := append(append([]*fn{}, mathFns["M02"]...), mathFns["M03"]...)
	n := r.N(120, 20000)
	r.Parallel(n, func(i int) {
		rng := rngFor(r, "mathsound", i)
		t := fns[i%len(fns)]
		in := t.gen(rng, t.f)
		cfg := soundCfg(rng, t.f)
		tg := &target{name: t.name, desc: fmt.Sprintf("%s(%#x)", t.name, in), cfg: cfg, body: t.body(cfg), in: ops.Comps(t.f, in),
			bits: 2*int(t.f.M) + 8, thin: 5, phase: rng.Intn(1000), every: 150, key: rep.Mix(append([]uint64{rep.Str(t.name), uint64(i)}, in...)...)}
		if i < 6 {
			r.Sample(cfg.String() + " " + tg.desc)
		}
		forge(r, tg)
	})
}

func init() {
	All["M01"] = horner
	All["M02"] = func(r *rep.R) { accuracy(r, mathFns["M02"], 9000, 500000) }
	All["M03"] = func(r *rep.R) { accuracy(r, mathFns["M03"], 6000, 500000) }
	All["M04"] = mathSound
}
