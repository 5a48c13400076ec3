package sys

import (
	"fmt"
	"math/big"
	"math/rand"
	"sync"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"
	maths "github.com/tumberger/zk-Location/math"

	"verif/harness/attack"
	"verif/harness/fp"
	"verif/harness/loc"
	"verif/harness/ops"
	"verif/harness/rep"
)

func init() { All["B01"] = fields }

var curves = []ecc.ID{ecc.BLS12_381, ecc.BN254, ecc.BLS12_377, ecc.BW6_761, ecc.BLS24_315, ecc.BLS24_317, ecc.BW6_633}

// claimIn is an operand tuple and the outputs that must be accepted for it.
func (s *spec) accepts(field *big.Int, cs constraint.ConstraintSystem, in, out []*big.Int) error {
	w, err := s.witness(field, in, out)
	if err != nil {
		return err
	}
	return attackSolve(cs, w, withCommit)
}

// fields: the circuits mean the same over every curve's scalar field.
func fields(r *rep.R) {
	r.Rule = "one case is one circuit, curve, constraint system and operand tuple with a claimed result; non-trivial when gnark's solver over that curve's field decided it"
	r.Assume = []string{"expected results of float operations are native IEEE-754 arithmetic, of the other circuits what they give over BN254"}
	type job struct {
		curve ecc.ID
		s     *spec
		op    *ops.Op
		fn    attack.Body
		v     string
		// const_, if not negative, is the operand that is the constant val
		const_ int
		val    uint64
	}
	var jobs []job
	fm := []fp.Fmt{fp.F64, fp.F32, fp.E5M2}
	for ci, c := range curves {
		for i, o := range allOps {
			for j := range fm {
				if ci > 1 && (i+j+ci)%3 != 0 && !r.Thorough() {
					continue
				}
				cfg := ops.Cfg{F: fm[j], FT: fts[(i+ci+j)%2], RS: []uint{8, 0, 12}[(i+j)%3]}
				jobs = append(jobs, job{curve: c, s: opSpec(o, cfg, true), op: o, const_: -1})
				// the same with a constant operand, which the builders treat specially
				f := cfg.F
				val := []uint64{f.Of(1.5), f.Neg(0), f.Inf(0), f.NaN(), f.Of(-3), 0, 1, f.Inf(1)}[(i+3*j+5*ci+int(r.Seed))%8]
				k := (i + j) % o.Arity
				b := make([]uint64, o.Arity)
				b[k] = val
				if o.Arity <= 2 && (o.Domain == nil || o.Arity > 1 || o.Domain(f, b)) && ((i+j)%2 == 0 || r.Thorough()) {
					cfg.FT = fts[(i/2+ci+j)%2]
					jobs = append(jobs, job{curve: c, s: constSpec(o, cfg, k, val), op: o, const_: k, val: val})
				}
			}
		}
		for i, f := range []func(c *float.Context, x float.FloatVar) float.FloatVar{maths.AtanRemez64, maths.AtanRemez32, maths.SinTaylor64, maths.SinTaylor32} {
			name := []string{"atan64", "atan32", "sin64", "sin32"}[i]
			o := &ops.Op{Name: name, Arity: 1, Run: func(c *float.Context, in []float.FloatVar) []any { return []any{f(c, in[0])} }}
			s := opSpec(o, ops.Cfg{F: fm[i%2], FT: fts[(i/2+ci)%2], RS: 8}, true)
			jobs = append(jobs, job{curve: c, s: s, fn: s.body})
		}
		for i, v := range loc.Names {
			if ci > 1 && (i+ci)%3 != 0 && !r.Thorough() {
				continue
			}
			for k, ft := range fts {
				if (k+i+ci)%2 != 0 && !r.Thorough() {
					continue
				}
				f, mk := loc.Circuit(v)
				jobs = append(jobs, job{curve: c, s: locSpec(v, ft, f, mk), v: v})
			}
		}
	}
	n := r.N(14, 1500)
	var mu sync.Mutex
	perCurve := map[string]bool{}
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		f := j.s.cfg.F
		field := j.curve.ScalarField()
		rng := rand.New(rand.NewSource(int64(rep.Mix(uint64(r.Seed), rep.Str("B01"), uint64(i)) >> 1)))
		where := fmt.Sprintf("%v over %v", j.s, j.curve)
		detail := map[string]any{"circuit": j.s.String(), "curve": j.curve.String()}
		nout := 0
		g := fp.NewGen(rng.Int63(), f)
		draw := func() (in []*big.Int, outs [][]*big.Int) {
			switch {
			case j.op != nil:
				b := make([]uint64, j.op.Arity)
				for {
					if len(b) == 2 {
						b[0], b[1] = g.Pair()
					} else {
						b[0] = g.Any()
						if rng.Intn(2) == 0 {
							b[0] = g.Roundish()
						}
					}
					if j.const_ >= 0 {
						b[j.const_] = j.val
					}
					if j.op.Domain == nil || j.op.Domain(f, b) {
						break
					}
				}
				for _, x := range b {
					in = append(in, new(big.Int).SetUint64(x))
				}
				if j.const_ >= 0 {
					in = append(in[:j.const_:j.const_], in[j.const_+1:]...)
				}
				out := []*big.Int{}
				nan := -1
				for _, w := range j.op.Ref(f, b) {
					if !w.IsNum {
						out = append(out, w.Int)
						continue
					}
					c := f.Decode(w.Bits)
					if c.IsNaN() && nan < 0 {
						nan = len(out)
					}
					v := c.Big()
					out = append(out, v[:]...)
				}
				outs = [][]*big.Int{out}
				if nan >= 0 {
					// every NaN of these operations' outputs has the same or either sign
					for m := 0; m < 16; m++ {
						o := append([]*big.Int{}, out...)
						k := 0
						for p, w := 0, j.op.Ref(f, b); len(w) > 0; w = w[1:] {
							if !w[0].IsNum {
								p++
								continue
							}
							if f.IsNaN(w[0].Bits) {
								o[p] = big.NewInt(int64(m >> k & 1))
								k++
							}
							p += 4
						}
						if k < 4 && m>>k != 0 {
							break
						}
						outs = append(outs, o)
					}
				}
			case j.fn != nil:
				x := f.Of((rng.Float64()*2 - 1) * 3.14)
				if rng.Intn(4) == 0 {
					x = f.Of(rng.NormFloat64() * 1e-3)
				}
				in = []*big.Int{new(big.Int).SetUint64(x)}
				out, fail := loc.Eval(j.s.cfg, j.fn, in)
				if fail != nil {
					return nil, nil
				}
				outs = [][]*big.Int{out}
			default:
				lat, lng, res, c, ok := loc.Point(j.v, rng)
				if !ok {
					return nil, nil
				}
				in = []*big.Int{new(big.Int).SetUint64(lat), new(big.Int).SetUint64(lng), big.NewInt(int64(res)), big.NewInt(c[0]), big.NewInt(c[1]), big.NewInt(c[2])}
				outs = [][]*big.Int{nil}
			}
			return
		}
		in, outs := draw()
		for in == nil {
			in, outs = draw()
		}
		nout = len(outs[0])
		cs, err := j.s.compile(field, nout)
		if err != nil {
			r.Violate(fmt.Sprintf("compile/%v/%s", j.curve, j.s.name), fmt.Sprintf("%s does not compile: %v", where, err), detail)
			return
		}
		mu.Lock()
		perCurve[j.curve.String()] = true
		mu.Unlock()
		r.Count("constraint systems compiled over "+j.curve.String(), 1)
		per := n
		if j.s.loc != nil {
			per = n/3 + 1
		}
		for k := 0; k < per && !r.Failed(); k++ {
			if k > 0 {
				in, outs = draw()
			}
			if in == nil {
				continue
			}
			if k == 0 && i < 12 {
				r.Sample(fmt.Sprintf("%s: %v gives %v", where, in, outs[0]))
			}
			var err error
			for _, o := range outs {
				if err = j.s.accepts(field, cs, in, o); err == nil {
					break
				}
			}
			r.Eval(1)
			r.Distinct(rep.Mix(uint64(i), rep.Str(fmt.Sprint(in))))
			r.Count("right claims decided", 1)
			if err != nil {
				r.Violate(fmt.Sprintf("rejects/%v/%s", j.curve, j.s.name), fmt.Sprintf("%s rejects the right result %v for %v: %.300v", where, outs[0], in, err), detail)
				return
			}
			// a wrong claim
			bad, bin := append([]*big.Int{}, outs[0]...), append([]*big.Int{}, in...)
			t := &bad
			p := rng.Intn(max(1, len(bad)))
			if j.s.loc != nil {
				t, p = &bin, 3+rng.Intn(3)
			}
			d := []*big.Int{big.NewInt(1), big.NewInt(-1), new(big.Int).Lsh(big.NewInt(1), uint(rng.Intn(60)))}[rng.Intn(3)]
			(*t)[p] = new(big.Int).Add((*t)[p], d)
			if ok := func() bool {
				// the sign of NaN is free
				if j.op == nil {
					return true
				}
				for _, o := range outs {
					same := true
					for q := range o {
						same = same && o[q].Cmp(bad[q]) == 0
					}
					if same {
						return false
					}
				}
				return true
			}(); !ok {
				continue
			}
			r.Eval(1)
			r.Count("wrong claims decided", 1)
			if j.s.accepts(field, cs, bin, bad) == nil {
				r.Violate(fmt.Sprintf("accepts/%v/%s", j.curve, j.s.name), fmt.Sprintf("%s accepts the wrong result %v for %v", where, bad, bin), detail)
				return
			}
		}
	})
	for c := range perCurve {
		_ = c
		r.Count("curves", 1)
	}
}

var _ frontend.Variable
