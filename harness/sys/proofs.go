package sys

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"sync"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/plonk"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/frontendtype"
	"github.com/consensys/gnark/test/unsafekzg"
	"github.com/tumberger/zk-Location/float"

	"verif/harness/fp"
	"verif/harness/loc"
	"verif/harness/ops"
	"verif/harness/rep"
)

func init() { All["B02"] = func(r *rep.R) { claims(r); proofs(r) } }

// prover holds the keys of a circuit and makes and checks proofs.
type prover struct {
	prove  func(w witness.Witness) (proof []byte, err error)
	verify func(proof []byte, public witness.Witness) error
}

func newProver(curve ecc.ID, cs constraint.ConstraintSystem, ft frontendtype.Type) (*prover, error) {
	if ft == frontendtype.SCS {
		srs, lag, err := unsafekzg.NewSRS(cs)
		if err != nil {
			return nil, err
		}
		pk, vk, err := plonk.Setup(cs, srs, lag)
		if err != nil {
			return nil, err
		}
		var vb bytes.Buffer
		if _, err := vk.WriteTo(&vb); err != nil {
			return nil, err
		}
		return &prover{
			func(w witness.Witness) ([]byte, error) {
				p, err := plonk.Prove(cs, pk, w)
				if err != nil {
					return nil, err
				}
				var b bytes.Buffer
				_, err = p.WriteTo(&b)
				return b.Bytes(), err
			},
			func(b []byte, public witness.Witness) error {
				vk := plonk.NewVerifyingKey(curve)
				if _, err := vk.ReadFrom(bytes.NewReader(vb.Bytes())); err != nil {
					return err
				}
				p := plonk.NewProof(curve)
				if _, err := p.ReadFrom(bytes.NewReader(b)); err != nil {
					return err
				}
				return plonk.Verify(p, vk, public)
			}}, nil
	}
	pk, vk, err := groth16.Setup(cs)
	if err != nil {
		return nil, err
	}
	var vb bytes.Buffer
	if _, err := vk.WriteTo(&vb); err != nil {
		return nil, err
	}
	return &prover{
		func(w witness.Witness) ([]byte, error) {
			p, err := groth16.Prove(cs, pk, w)
			if err != nil {
				return nil, err
			}
			var b bytes.Buffer
			_, err = p.WriteTo(&b)
			return b.Bytes(), err
		},
		func(b []byte, public witness.Witness) error {
			vk := groth16.NewVerifyingKey(curve)
			if _, err := vk.ReadFrom(bytes.NewReader(vb.Bytes())); err != nil {
				return err
			}
			p := groth16.NewProof(curve)
			if _, err := p.ReadFrom(bytes.NewReader(b)); err != nil {
				return err
			}
			return groth16.Verify(p, vk, public)
		}}, nil
}

// proofs: real proofs of right claims verify, and verify nothing else.
func proofs(r *rep.R) {
	r.Rule = "one case is one circuit, proof system, curve and claim; non-trivial when a real proof was made (keys and proof serialised and read back) and the verifier decided its public claim and altered ones"
	r.Assume = []string{"setup randomness is gnark's test setup"}
	type job struct {
		curve ecc.ID
		s     *spec
		op    *ops.Op
		v     string
	}
	var jobs []job
	for ci, c := range []ecc.ID{ecc.BN254, ecc.BLS12_381} {
		for k, ft := range fts {
			for i, v := range loc.Names {
				if v == "loc64" && k != ci && !r.Thorough() {
					continue
				}
				_ = i
				f, mk := loc.Circuit(v)
				jobs = append(jobs, job{curve: c, s: locSpec(v, ft, f, mk), v: v})
			}
			for i, o := range allOps {
				if (i+k+ci)%2 != 0 && !r.Thorough() {
					continue
				}
				jobs = append(jobs, job{curve: c, s: opSpec(o, ops.Cfg{F: []fp.Fmt{fp.F32, fp.F64}[(i/2)%2], FT: ft, RS: 8}, true), op: o})
			}
		}
	}
	n := r.N(2, 40)
	var one sync.Mutex // one large setup at a time
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		f := j.s.cfg.F
		field := j.curve.ScalarField()
		rng := rand.New(rand.NewSource(int64(rep.Mix(uint64(r.Seed), rep.Str("B02"), uint64(i)) >> 1)))
		system := "groth16"
		if j.s.cfg.FT == frontendtype.SCS {
			system = "plonk"
		}
		where := fmt.Sprintf("%v, %s over %v", j.s, system, j.curve)
		d := map[string]any{"circuit": j.s.String(), "system": system, "curve": j.curve.String()}
		nout := 0
		if j.op != nil {
			x := make([]uint64, j.op.Arity)
			for k := range x {
				x[k] = f.Of(1)
			}
			v, _ := wantOf(f, j.op, x)
			nout = len(v)
		}
		if j.s.loc != nil {
			one.Lock()
		}
		cs, err := j.s.compile(field, nout)
		var p *prover
		if err == nil {
			p, err = newProver(j.curve, cs, j.s.cfg.FT)
		}
		if j.s.loc != nil {
			one.Unlock()
		}
		if err != nil {
			r.Violate("setup/"+system+"/"+j.s.name, fmt.Sprintf("%s: no setup: %v", where, err), d)
			return
		}
		r.Count("setups: "+system, 1)
		type claim struct{ in, out []*big.Int }
		var prev []byte
		var prevClaim claim
		for k := 0; k < n && !r.Failed(); k++ {
			var c claim
			if j.op != nil {
				b := make([]uint64, j.op.Arity)
				g := fp.NewGen(rng.Int63(), f)
				for {
					for q := range b {
						b[q] = g.Finite()
					}
					if len(b) == 2 {
						b[0], b[1] = g.Pair()
					}
					if _, nan := wantOf(f, j.op, b); (j.op.Domain == nil || j.op.Domain(f, b)) && !nan {
						break
					}
				}
				for _, x := range b {
					c.in = append(c.in, new(big.Int).SetUint64(x))
				}
				c.out, _ = wantOf(f, j.op, b)
			} else {
				lat, lng, res, cell, ok := loc.Point(j.v, rng)
				if !ok {
					continue
				}
				c.in = []*big.Int{new(big.Int).SetUint64(lat), new(big.Int).SetUint64(lng), big.NewInt(int64(res)), big.NewInt(cell[0]), big.NewInt(cell[1]), big.NewInt(cell[2])}
			}
			if k == 0 && i < 10 {
				r.Sample(fmt.Sprintf("%s: %v %v", where, c.in, c.out))
			}
			public := func(c claim) witness.Witness {
				w, err := j.s.witness(field, c.in, c.out)
				if err != nil {
					r.Broken("witness: %v", err)
					return nil
				}
				w, err = w.Public()
				if err != nil {
					r.Broken("witness: %v", err)
				}
				return w
			}
			w, err := j.s.witness(field, c.in, c.out)
			if err != nil {
				r.Broken("witness: %v", err)
				return
			}
			proof, err := p.prove(w)
			r.Eval(1)
			r.Distinct(rep.Mix(uint64(i), uint64(k)))
			r.Count("proofs made: "+system, 1)
			if err != nil {
				r.Violate("prove/"+system+"/"+j.s.name, fmt.Sprintf("%s: the right claim %v %v cannot be proven: %v", where, c.in, c.out, err), d)
				return
			}
			if err := p.verify(proof, public(c)); err != nil {
				r.Violate("verify/"+system+"/"+j.s.name, fmt.Sprintf("%s: the proof of %v %v does not verify: %v", where, c.in, c.out, err), d)
				return
			}
			r.Count("proofs verified: "+system, 1)
			// the same proof for other claims: every public value off by one
			for q := 0; q < 4; q++ {
				x := claim{append([]*big.Int{}, c.in...), append([]*big.Int{}, c.out...)}
				t, at := x.out, 0
				if j.op == nil {
					t, at = x.in, 2+q
				} else {
					at = rng.Intn(len(t))
				}
				t[at] = new(big.Int).Add(t[at], big.NewInt(int64(1-2*rng.Intn(2))))
				r.Eval(1)
				r.Count("proofs offered for another claim: "+system, 1)
				if p.verify(proof, public(x)) == nil {
					r.Violate("wrong/"+system+"/"+j.s.name, fmt.Sprintf("%s: the proof of %v %v also verifies for %v %v", where, c.in, c.out, x.in, x.out), d)
					return
				}
				// nor can a proof of it be made (another resolution may well
				// have the same cell indices, other indices are always wrong)
				if j.op != nil && q == 0 || j.op == nil && q == 1 {
					if w, err := j.s.witness(field, x.in, x.out); err == nil {
						r.Count("false claims offered to the prover: "+system, 1)
						if _, err := p.prove(w); err == nil {
							r.Violate("false/"+system+"/"+j.s.name, fmt.Sprintf("%s: the false claim %v %v is provable", where, x.in, x.out), d)
							return
						}
					}
				}
			}
			if prev != nil && fmt.Sprint(prevClaim.out, prevClaim.in[min(2, len(prevClaim.in)):]) != fmt.Sprint(c.out, c.in[min(2, len(c.in)):]) {
				r.Count("proofs offered for another claim: "+system, 1)
				if p.verify(prev, public(c)) == nil {
					r.Violate("wrong/"+system+"/"+j.s.name, fmt.Sprintf("%s: the proof of %v also verifies for %v", where, prevClaim, c), d)
					return
				}
			}
			// the coordinates must not be part of what the verifier sees
			if j.op == nil {
				v := fmt.Sprint(public(c).Vector())
				w := fmt.Sprint(public(claim{in: append([]*big.Int{big.NewInt(12345), big.NewInt(54321)}, c.in[2:]...)}).Vector())
				r.Count("public claims checked for the location", 1)
				if v != w {
					r.Violate("secret/"+j.s.name, fmt.Sprintf("%s: the public claim depends on the secret location", where), d)
					return
				}
			}
			prev, prevClaim = proof, c
		}
	})
}

// wantOf lists the component values of an operation's outputs.
func wantOf(f fp.Fmt, o *ops.Op, in []uint64) (v []*big.Int, nan bool) {
	for _, w := range o.Ref(f, in) {
		if !w.IsNum {
			v = append(v, w.Int)
			continue
		}
		c := f.Decode(w.Bits)
		nan = nan || c.IsNaN()
		b := c.Big()
		v = append(v, b[:]...)
	}
	return
}

// claimCircuit states that an operation on secret operands yields a public
// value, by the equality assertion of the library.
type claimCircuit struct {
	X  []frontend.Variable
	Z  frontend.Variable `gnark:",public"`
	cf ops.Cfg
	op *ops.Op
}

func (c *claimCircuit) Define(api frontend.API) error {
	ctx := ops.Context(api, c.cf)
	in := make([]float.FloatVar, len(c.X))
	for i := range in {
		in[i] = ctx.NewFloat(c.X[i])
	}
	ctx.AssertIsEqual(c.op.Run(ctx, in)[0].(float.FloatVar), ctx.NewFloat(c.Z))
	return nil
}

// claims: with the public value given as an encoding and compared by the
// library, the right value can be proven and verified and no other one can,
// however close: signs, neighbours, infinities, NaN and values outside the
// format.
func claims(r *rep.R) {
	type job struct {
		op  *ops.Op
		cfg ops.Cfg
	}
	var jobs []job
	for i, o := range []*ops.Op{ops.Add, ops.Sub, ops.Mul, ops.Div, ops.Sqrt, ops.Trunc, ops.Floor, ops.Ceil} {
		for k, ft := range fts {
			f := []fp.Fmt{fp.F32, fp.F64}[(i+k)%2]
			jobs = append(jobs, job{o, ops.Cfg{F: f, FT: ft, RS: 8}})
		}
	}
	n := r.N(4, 60)
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		f, ar := j.cfg.F, j.op.Arity
		rng := rand.New(rand.NewSource(int64(rep.Mix(uint64(r.Seed), rep.Str("B02 claims"), uint64(i)) >> 1)))
		g := fp.NewGen(rng.Int63(), f)
		field := ecc.BN254.ScalarField()
		s := &spec{name: "claim of " + j.op.Name, cfg: j.cfg, vars: ar + 1, loc: func(v []frontend.Variable) frontend.Circuit {
			return &claimCircuit{X: v[:ar], Z: v[ar], cf: j.cfg, op: j.op}
		}}
		system := "groth16"
		if j.cfg.FT == frontendtype.SCS {
			system = "plonk"
		}
		d := map[string]any{"circuit": s.String(), "system": system}
		cs, err := s.compile(field, 0)
		var p *prover
		if err == nil {
			p, err = newProver(ecc.BN254, cs, j.cfg.FT)
		}
		if err != nil {
			r.Violate("setup/"+system+"/"+s.name, fmt.Sprintf("%v, %s: no setup: %v", s, system, err), d)
			return
		}
		r.Count("setups: "+system, 1)
		for k := 0; k < n && !r.Failed(); k++ {
			x := make([]uint64, ar)
			var z uint64
			for tries := 0; ; tries++ {
				for q := range x {
					x[q] = g.Any()
				}
				if ar == 2 {
					x[0], x[1] = g.Pair()
				}
				if j.op.Domain != nil && !j.op.Domain(f, x) {
					continue
				}
				z = j.op.Ref(f, x)[0].Bits
				// zeros and special results often
				if zero := f.IsZero(z); k%2 == 0 && !zero && tries < 400 {
					if ar == 2 && tries%2 == 0 {
						x[1] = []uint64{x[0], f.Neg(x[0]), 0, f.Neg(0)}[rng.Intn(4)]
						z = j.op.Ref(f, x)[0].Bits
						if f.IsZero(z) {
							break
						}
					}
					continue
				}
				break
			}
			in := func(z *big.Int) []*big.Int {
				var v []*big.Int
				for _, b := range x {
					v = append(v, new(big.Int).SetUint64(b))
				}
				return append(v, z)
			}
			where := fmt.Sprintf("%v, %s: %s of %#x", s, system, j.op.Name, x)
			w, err := s.witness(field, in(new(big.Int).SetUint64(z)), nil)
			if err != nil {
				r.Broken("witness: %v", err)
				return
			}
			proof, err := p.prove(w)
			r.Eval(1)
			r.Distinct(rep.Mix(uint64(i), uint64(k), z, rep.Str("claims")))
			r.Count("proofs made: "+system, 1)
			if err != nil {
				r.Violate("prove/"+system+"/"+s.name, fmt.Sprintf("%s: the right claim %#x cannot be proven: %v", where, z, err), d)
				return
			}
			pub, err := w.Public()
			if err == nil {
				err = p.verify(proof, pub)
			}
			if err != nil {
				r.Violate("verify/"+system+"/"+s.name, fmt.Sprintf("%s: the proof of %#x does not verify: %v", where, z, err), d)
				return
			}
			r.Count("proofs verified: "+system, 1)
			wrong := []*big.Int{}
			nan := f.IsNaN(z)
			for _, y := range []uint64{f.Neg(z), f.Step(z, 1), f.Step(z, -1), f.Inf(0), f.Inf(1), f.NaN(), 0, f.Neg(0), g.Any()} {
				if y != z && !(nan && f.IsNaN(y)) {
					wrong = append(wrong, new(big.Int).SetUint64(y))
				}
			}
			b := f.Bits()
			wrong = append(wrong, new(big.Int).Add(new(big.Int).SetUint64(z), new(big.Int).Lsh(big.NewInt(1), b)),
				new(big.Int).Sub(field, new(big.Int).SetUint64(1+z)))
			for _, y := range wrong {
				w, err := s.witness(field, in(y), nil)
				if err != nil {
					r.Broken("witness: %v", err)
					return
				}
				pub, err := w.Public()
				if err != nil {
					r.Broken("witness: %v", err)
					return
				}
				r.Eval(2)
				r.Count("proofs offered for another claim: "+system, 1)
				if p.verify(proof, pub) == nil {
					r.Violate("wrong/"+system+"/"+s.name, fmt.Sprintf("%s: the proof of %#x also verifies for %#x", where, z, y), d)
					return
				}
				r.Count("false claims offered to the prover: "+system, 1)
				if _, err := p.prove(w); err == nil {
					r.Violate("false/"+system+"/"+s.name, fmt.Sprintf("%s: the false claim %#x instead of %#x is provable", where, y, z), d)
					return
				}
			}
		}
	})
}
