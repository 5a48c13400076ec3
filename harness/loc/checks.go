package loc

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"
	"sync"

	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/frontend/frontendtype"
	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/hint"
	loc32 "github.com/tumberger/zk-Location/loc2index32"
	loc64 "github.com/tumberger/zk-Location/loc2index64"

	"verif/harness/attack"
	"verif/harness/checks"
	"verif/harness/fp"
	"verif/harness/mon"
	"verif/harness/ops"
	"verif/harness/rep"
)

// All maps property ids to checks.
var All = map[string]func(r *rep.R){
	"L01": func(r *rep.R) { cells(r, []*variant{v64}, 7000, 600000) },
	"L02": func(r *rep.R) { cells(r, []*variant{v32, v32w}, 7000, 600000) },
	"L03": grid,
	"L04": forging,
	"L05": rejects,
}

var variants = []*variant{v64, v32, v32w}

func ints(o [3]*big.Int) (c IJK, ok bool) {
	for i := range o {
		if o[i] == nil || !o[i].IsInt64() {
			return c, false
		}
		c[i] = o[i].Int64()
	}
	return c, true
}

// cells: the circuit computes, for every valid location and resolution, the
// H3 cell the location lies in, up to float rounding.
func cells(r *rep.R, vs []*variant, nq, nt int) {
	r.Rule = "one case is one circuit, location (bit patterns) and resolution; non-trivial when the circuit produced indices that were judged against the exact projection"
	r.Assume = []string{
		"the reference is a gnomonic projection in 64 bit arithmetic with the constants of the H3 specification, itself compared with the H3 C library in this run",
		"a cell is right if the location, moved by at most the stated multiple of the format's precision on the unit sphere, lies in it; the multiple is about twice the largest ever observed",
	}
	n := r.N(nq, nt)
	r.Parallel(n, func(i int) {
		rng := checks.RngFor(r, "cell", i)
		v := vs[i%len(vs)]
		lat, lng, res, what := v.point(rng, i/len(vs))
		if i < 9 {
			r.Sample(v.name + " " + what + ": " + v.desc(lat, lng, res))
		}
		ft := frontendtype.R1CS
		if rng.Intn(3) == 0 {
			ft = frontendtype.SCS
		}
		out, fail, e := v.cell(lat, lng, res, ft)
		r.Eval(1)
		r.Count("constraints observed", int64(e.NAssert+e.NRange))
		d := map[string]any{"circuit": v.name, "case": v.desc(lat, lng, res)}
		if fail != nil {
			r.Violate("honest/"+v.name+"/"+what, fmt.Sprintf("%s: honest prover cannot prove the location %s: %v", v.name, v.desc(lat, lng, res), fail), d)
			return
		}
		c, ok := ints(out)
		if !ok || c != c.normal() {
			r.Violate("indices/"+v.name+"/"+what, fmt.Sprintf("%s: %s gives the invalid indices %v", v.name, v.desc(lat, lng, res), out), d)
			return
		}
		p, g := v.judge(lat, lng, res, c)
		r.Distinct(rep.Mix(lat, lng, uint64(res), rep.Str(v.name)))
		r.Count("cells judged: "+what, 1)
		if p > 0 || g > 0 {
			r.Count("locations decided by rounding", 1)
		}
		if p > v.pos || g > v.face {
			_, want := v.reference(lat, lng, res)
			r.Violate("cell/"+v.name+"/"+what, fmt.Sprintf("%s: %s is placed in cell %v instead of %v (outside it by %.3g units of precision, face by %.3g)", v.name, v.desc(lat, lng, res), c, want, p, g), d)
			return
		}
		r.Max("largest deviation accepted, 1/1000 of the format's precision: "+v.name, int64(p*1000))
		// the independent library, where it is not within rounding of a boundary
		if haveH3() {
			_, h := h3Cell(v.value(lat), v.value(lng), res)
			if h == c {
				r.Count("cells equal to the H3 library's", 1)
			} else if v == v64 {
				// H3 takes the arc cosine of a value near 1: positions near a
				// face centre are only good to the root of the precision
				if hp, hg := v.judge(lat, lng, res, h); hp > 1e9 || hg > 64 {
					r.Broken("reference and H3 disagree on %s: %v %v (%g %g)", v.desc(lat, lng, res), c, h, hp, hg)
				}
				r.Count("cells different from the H3 library's (within its rounding)", 1)
			}
		}
	})
	if !haveH3() {
		r.Count("H3 library not linked: compared with the projection only", 1)
	}
}

// stage functions of both packages
type stages struct {
	name    string
	f       fp.Fmt
	closest func(f *float.Context, x, y, z, lng float.FloatVar) [9]float.FloatVar
	r       func(f *float.Context, sqd float.FloatVar, res frontend.Variable) float.FloatVar
	hex2d   func(f *float.Context, z, cosLat, sinLng, cosLng float.FloatVar, c [9]float.FloatVar, r float.FloatVar, res frontend.Variable) [2]float.FloatVar
	ijk     func(f *float.Context, x, y float.FloatVar) [3]frontend.Variable
	norm    func(f *float.Context, in, i, jn, j, kn, k frontend.Variable) [3]frontend.Variable
}

var st64 = &stages{"loc64", fp.F64, loc64.ZZClosest, loc64.ZZR, loc64.ZZHex2d, loc64.ZZIJK, loc64.NormalizeIJK}
var st32 = &stages{"loc32", fp.F32, loc32.ZZClosest, loc32.ZZR, loc32.ZZHex2d, loc32.ZZIJK, loc32.NormalizeIJK}

func (s *stages) ijkBody(cfg ops.Cfg) attack.Body {
	return func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		c := s.ijk(ops.Context(api, cfg), ops.Float(api, in[0:4]), ops.Float(api, in[4:8]))
		return c[:]
	}
}

func (s *stages) normBody(cfg ops.Cfg) attack.Body {
	return func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		for i := 0; i < 6; i += 2 {
			api.AssertIsBoolean(in[i])
		}
		c := s.norm(ops.Context(api, cfg), in[0], in[1], in[2], in[3], in[4], in[5])
		return c[:]
	}
}

// hexPoint draws plane coordinates, mostly close to hexagon boundaries.
func hexPoint(rng *rand.Rand, f fp.Fmt) (x, y uint64) {
	mag := math.Pow(2, 22.2*rng.Float64())
	if rng.Intn(4) == 0 {
		mag = 2
	}
	s := func() float64 { return (2*rng.Float64() - 1) * mag }
	d := func() float64 { return (2*rng.Float64() - 1) * math.Pow(10, -14*rng.Float64()) }
	a, b := s(), s()
	switch rng.Intn(8) {
	case 0, 1, 2:
		cx, cy := nearest(a, b).center()
		u := float64(rng.Intn(6)) * math.Pi / 3
		e := 0.5 + d()
		w := (rng.Float64() - 0.5) / math.Sqrt(3)
		a, b = cx+e*math.Cos(u)-w*math.Sin(u), cy+e*math.Sin(u)+w*math.Cos(u)
	case 3, 4:
		cx, cy := nearest(a, b).center()
		u := (float64(rng.Intn(6)) + 0.5) * math.Pi / 3
		a, b = cx+math.Cos(u)/math.Sqrt(3)+d(), cy+math.Sin(u)/math.Sqrt(3)+d()
	case 5:
		a, b = nearest(a, b).center()
		a, b = a+d(), b+d()
	case 6:
		v := []float64{0, math.Copysign(0, -1), 0.5, -0.5, 1, 1. / 3, 2. / 3, math.Ldexp(1, -140), d(), math.Sqrt(3) / 2, -math.Sqrt(3) / 2}
		a = v[rng.Intn(len(v))]
		if rng.Intn(2) == 0 {
			b = v[rng.Intn(len(v))]
		}
	}
	return f.Of(a), f.Of(b)
}

// grid: plane coordinates to grid indices.
func grid(r *rep.R) {
	r.Rule = "one case is one pair of plane coordinates or one signed index triple, in one package and configuration; non-trivial when the indices were compared with the hexagon containing the point, or with the normal form"
	r.Assume = []string{"a point within 3 units of precision of its magnitude of a hexagon boundary may go to either side"}
	n := r.N(30000, 1500000)
	r.Parallel(n, func(i int) {
		rng := checks.RngFor(r, "grid", i)
		s := []*stages{st64, st32}[i%2]
		cfg := ops.Cfg{F: s.f, FT: []frontendtype.Type{frontendtype.R1CS, frontendtype.SCS}[rng.Intn(2)], RS: uint(6 + rng.Intn(4))}
		r.Eval(1)
		if i%4 < 2 {
			x, y := hexPoint(rng, s.f)
			a, b := s.f.Val(x), s.f.Val(y)
			desc := fmt.Sprintf("%v x=%v (%#x) y=%v (%#x)", cfg, a, x, b, y)
			if i < 8 {
				r.Sample(s.name + " " + desc)
			}
			out, fail := eval(cfg, s.ijkBody(cfg), ops.Comps(s.f, []uint64{x, y}))
			d := map[string]any{"package": s.name, "case": desc}
			if fail != nil {
				r.Violate("honest/ijk/"+s.name, fmt.Sprintf("%s: honest prover cannot index the point %s: %v", s.name, desc, fail), d)
				return
			}
			c, ok := ints([3]*big.Int{out[0], out[1], out[2]})
			if !ok || c != c.normal() {
				r.Violate("indices/ijk/"+s.name, fmt.Sprintf("%s: the point %s gets the invalid indices %v", s.name, desc, out), d)
				return
			}
			r.Distinct(rep.Mix(x, y, uint64(i%2)))
			cx, cy := c.center()
			// the difference in doubles is exact enough: both are close
			dev := (hexNorm(a-cx, b-cy) - 0.5) / math.Ldexp(1, -int(s.f.M)-1) / math.Max(1, math.Hypot(a, b))
			if dev > 3 {
				r.Violate("cell/ijk/"+s.name, fmt.Sprintf("%s: the point %s is placed in cell %v instead of %v (outside it by %.3g units of precision)", s.name, desc, c, nearest(a, b), dev), d)
				return
			}
			if dev > 0 {
				r.Count("points decided by rounding", 1)
			}
			r.Max("largest deviation accepted, 1/1000 of the format's precision: "+s.name, int64(math.Max(0, dev)*1000))
			if haveH3() && h3Hex(a, b) == c {
				r.Count("points indexed as by the H3 library", 1)
			}
			r.Count("points indexed", 1)
			return
		}
		var v [3]int64
		in := make([]*big.Int, 6)
		lim := int64(1) << uint(1+rng.Intn(29))
		for k := range v {
			v[k] = rng.Int63n(lim)
			if rng.Intn(6) == 0 {
				v[k] = 0
			}
			if k > 0 && rng.Intn(4) == 0 {
				v[k] = v[k-1]
			}
			if k > 0 && rng.Intn(6) == 0 {
				v[k] = max(0, v[k-1]+int64(rng.Intn(3)-1))
			}
			neg := rng.Intn(2)
			in[2*k], in[2*k+1] = big.NewInt(int64(neg)), big.NewInt(v[k])
			if neg == 1 {
				v[k] = -v[k]
			}
		}
		want := IJK(v).normal()
		desc := fmt.Sprintf("%v i=%v%v j=%v%v k=%v%v", cfg, sgn(in[0]), in[1], sgn(in[2]), in[3], sgn(in[4]), in[5])
		out, fail := eval(cfg, s.normBody(cfg), in)
		d := map[string]any{"package": s.name, "case": desc}
		if fail != nil {
			r.Violate("honest/normalize/"+s.name, fmt.Sprintf("%s: honest prover cannot normalise %s: %v", s.name, desc, fail), d)
			return
		}
		c, ok := ints([3]*big.Int{out[0], out[1], out[2]})
		if !ok || c != want {
			r.Violate("normalize/"+s.name, fmt.Sprintf("%s: %s is normalised to %v instead of %v", s.name, desc, out, want), d)
			return
		}
		if haveH3() && h3Norm(v[0], v[1], v[2]) != c {
			r.Broken("the H3 library normalises %v to %v", v, h3Norm(v[0], v[1], v[2]))
		}
		r.Distinct(rep.Mix(uint64(v[0]), uint64(v[1]), uint64(v[2]), uint64(i%2)))
		r.Count("triples normalised", 1)
	})
}

func sgn(b *big.Int) string {
	if b.Sign() != 0 {
		return "-"
	}
	return "+"
}

// eval runs a body honestly.
func eval(cfg ops.Cfg, body attack.Body, in []*big.Int) (out []*big.Int, fail *mon.Failure) {
	e := ops.NewEngine(cfg)
	fail = e.Run(func(api frontend.API) {
		w := make([]frontend.Variable, len(in))
		for i := range in {
			w[i] = e.Input(in[i])
		}
		for _, v := range body(api, w) {
			out = append(out, e.SignedBig(v))
		}
	})
	return
}

// forging: no prover gets another cell accepted.
func forging(r *rep.R) {
	r.Rule = "one case is one stage of the location pipeline with fixed inputs, honestly executed and then re-executed with wrong values for the outputs of hint calls; or one whole circuit with the trigonometric hint answering for another angle"
	r.Assume = checks.SoundAssume
	forgeTrig(r)
	n := r.N(240, 30000)
	r.Parallel(n, func(i int) {
		rng := checks.RngFor(r, "forge", i)
		s := []*stages{st64, st32}[i%2]
		v := v64
		if s == st32 {
			v = v32
		}
		f := s.f
		cfg := checks.SoundCfg(rng, f)
		lat, lng, res, _ := v.point(rng, i/2)
		A, O := v.value(lat), v.value(lng)
		a := &checks.Attack{Cfg: cfg, Phase: rng.Intn(1000), Thin: 3, Key: rep.Mix(uint64(i), rep.Str(r.ID))}
		of := func(x ...float64) []*big.Int {
			b := make([]uint64, len(x))
			for k := range x {
				b[k] = f.Of(x[k])
			}
			return ops.Comps(f, b)
		}
		R := big.NewInt(int64(res))
		switch i / 2 % 6 {
		case 0, 1:
			a.Name = "NormalizeIJK/" + s.name
			in := make([]*big.Int, 6)
			for k := 0; k < 3; k++ {
				in[2*k] = big.NewInt(int64(rng.Intn(2)))
				in[2*k+1] = big.NewInt(rng.Int63n(1 << uint(1+rng.Intn(24))))
			}
			a.In, a.Body, a.Pairs = in, s.normBody(cfg), true
		case 2:
			x, y := hexPoint(rng, f)
			a.Name = "hex2dToCoordIJK/" + s.name
			a.In, a.Body, a.Every = ops.Comps(f, []uint64{x, y}), s.ijkBody(cfg), 9
		case 3:
			a.Name = "calculateR/" + s.name
			a.In, a.Every = append(of(rng.Float64()*0.42), R), 9
			a.Body = func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				return ops.Flatten([]any{s.r(ops.Context(api, cfg), ops.Float(api, in[0:4]), in[4])})
			}
		case 4:
			fc := faces[rng.Intn(20)]
			a.Name = "calculateHex2d/" + s.name
			a.In, a.Every = append(of(math.Sin(A), math.Cos(A), math.Sin(O), math.Cos(O), math.Sin(fc.lat), math.Cos(fc.lat), math.Sin(fc.lng), math.Cos(fc.lng), math.Sin(fc.az), math.Cos(fc.az), math.Sin(fc.az-ap7Rot), math.Cos(fc.az-ap7Rot), 3.5), R), 40
			a.Body = func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				var p [13]float.FloatVar
				for k := range p {
					p[k] = ops.Float(api, in[4*k:4*k+4])
				}
				c := [9]float.FloatVar{p[0], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11]}
				h := s.hex2d(ops.Context(api, cfg), p[0], p[1], p[2], p[3], c, p[12], in[52])
				return ops.Flatten([]any{h[0], h[1]})
			}
		case 5:
			a.Name = "closestFaceCalculations/" + s.name
			a.In, a.Every, a.Thin = of(math.Cos(A)*math.Cos(O), math.Cos(A)*math.Sin(O), math.Sin(A), O), 150, 9
			a.Body = func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				c := s.closest(ops.Context(api, cfg), ops.Float(api, in[0:4]), ops.Float(api, in[4:8]), ops.Float(api, in[8:12]), ops.Float(api, in[12:16]))
				var o []any
				for _, x := range c {
					o = append(o, x)
				}
				return ops.Flatten(o)
			}
		}
		a.Desc = fmt.Sprintf("%s of %v", a.Name, a.In)
		if i < 12 {
			r.Sample(a.Cfg.String() + " " + a.Desc)
		}
		r.Count("stages attacked: "+strings.SplitN(a.Name, "/", 2)[0], 1)
		checks.Forge(r, a)
	})
}

// forgeTrig answers the trigonometric hint for another angle.
func forgeTrig(r *rep.R) {
	type job struct {
		v *variant
		h solver.Hint
	}
	jobs := []job{{v64, hint.PrecomputeHint64}, {v32, hint.PrecomputeHint32}}
	r.Parallel(len(jobs), func(i int) {
		v, h := jobs[i].v, jobs[i].h
		rng := checks.RngFor(r, "trig", i)
		for n := 0; n < r.N(40, 1000); n++ {
			lat, lng, res, _ := v.point(rng, 0)
			out, fail, _ := v.cell(lat, lng, res, frontendtype.R1CS)
			if fail != nil {
				continue // L01, L02
			}
			lat2 := v.bits(v.value(lat) * (1 + 0.3*rng.Float64()))
			if math.Abs(v.value(lat2)) > 1.5 {
				continue
			}
			tamper := func(in, out []*big.Int) {
				if in[0].Uint64() == lat {
					h(mon.Modulus, []*big.Int{new(big.Int).SetUint64(lat2), in[1], in[2]}, out)
				}
			}
			got, fail, _ := v.cell2(lat, lng, res, frontendtype.R1CS, func(e *mon.Engine, site int, fn string, in, out []*big.Int) {
				if strings.Contains(fn, "PrecomputeHint") {
					tamper(in, out)
				}
			})
			r.Eval(1)
			r.Count("executions with a false trigonometric hint", 1)
			if fail != nil {
				continue
			}
			a, ok1 := ints(out)
			b, ok2 := ints(got)
			if !ok1 || !ok2 || a == b {
				continue
			}
			// the real constraint system
			cs, err := compile(v, frontendtype.R1CS)
			if err != nil {
				r.Broken("compile %s: %v", v.name, err)
				return
			}
			err = solve(v, cs, lat, lng, res, b, solver.OverrideHint(solver.GetHintID(h), func(m *big.Int, in, out []*big.Int) error {
				if err := h(m, in, out); err != nil {
					return err
				}
				tamper(in, out)
				return nil
			}))
			if err != nil {
				r.Count("forgeries not reproduced by the real solver", 1)
				continue
			}
			r.Violate("forged/"+v.name+"/PrecomputeHint", fmt.Sprintf("%s: %s is accepted in cell %v instead of %v when the trigonometric hint answers for latitude %v", v.name, v.desc(lat, lng, res), b, a, v.value(lat2)),
				map[string]any{"circuit": v.name, "case": v.desc(lat, lng, res)})
			return
		}
	})
}

var csCache sync.Map

func compile(v *variant, ft frontendtype.Type) (constraint.ConstraintSystem, error) {
	type entry struct {
		once sync.Once
		cs   constraint.ConstraintSystem
		err  error
	}
	x, _ := csCache.LoadOrStore(fmt.Sprint(v.name, ft), &entry{})
	e := x.(*entry)
	e.once.Do(func() {
		c := v.mk(0, 0, 0, nil, nil, nil)
		if ft == frontendtype.SCS {
			e.cs, e.err = frontend.Compile(attack.BN254(), scs.NewBuilder, c)
		} else {
			e.cs, e.err = frontend.Compile(attack.BN254(), r1cs.NewBuilder, c)
		}
	})
	return e.cs, e.err
}

func solve(v *variant, cs constraint.ConstraintSystem, lat, lng any, res any, c IJK, opts ...solver.Option) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	w, err := frontend.NewWitness(v.mk(lat, lng, res, c[0], c[1], c[2]), attack.BN254())
	if err != nil {
		return err
	}
	_, err = cs.Solve(w, opts...)
	return err
}
