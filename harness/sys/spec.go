// Package sys checks the system around the circuits on gnark itself: provers
// under hostile witnesses, concurrency, determinism, other fields, proofs and
// the utility programs.
package sys

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/frontend/frontendtype"
	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/gadget"
	loc32 "github.com/tumberger/zk-Location/loc2index32"
	loc64 "github.com/tumberger/zk-Location/loc2index64"
	maths "github.com/tumberger/zk-Location/math"

	"verif/harness/attack"
	"verif/harness/fp"
	"verif/harness/ops"
	"verif/harness/rep"
)

// All maps property ids to checks.
var All = map[string]func(r *rep.R){}

// spec is a circuit over inputs of a stated kind.
type spec struct {
	name string
	cfg  ops.Cfg
	kind []byte // per input: 'f' encoding, 'i' integer, 'c' location circuit's own
	body attack.Body
	// loc, if set, is a whole location circuit with inputs lat, lng, res, i, j, k
	loc func(v []frontend.Variable) frontend.Circuit
	// vars is the number of inputs of loc, if not 6
	vars int
}

func (s *spec) String() string { return s.name + " " + s.cfg.String() }

func (s *spec) compile(field *big.Int, nout int) (cs constraint.ConstraintSystem, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	if s.loc == nil {
		return attack.Compile(field, s.cfg.FT, len(s.kind), nout, s.body)
	}
	n := s.vars
	if n == 0 {
		n = 6
	}
	c := s.loc(make([]frontend.Variable, n))
	if s.cfg.FT == frontendtype.SCS {
		return frontend.Compile(field, scs.NewBuilder, c)
	}
	return frontend.Compile(field, r1cs.NewBuilder, c, frontend.WithCompressThreshold(1000))
}

func (s *spec) witness(field *big.Int, in, out []*big.Int) (witness.Witness, error) {
	if s.loc == nil {
		return attack.Witness(field, in, out)
	}
	v := make([]frontend.Variable, len(in))
	for i := range v {
		v[i] = in[i]
	}
	return frontend.NewWitness(s.loc(v), field)
}

var fts = []frontendtype.Type{frontendtype.R1CS, frontendtype.SCS}

// allOps are the float operations.
var allOps = []*ops.Op{ops.Add, ops.Sub, ops.Mul, ops.Div, ops.Sqrt, ops.Neg, ops.Abs, ops.Trunc, ops.Floor, ops.Ceil,
	ops.Lt, ops.Le, ops.Gt, ops.Ge, ops.TruncInt, ops.FloorInt, ops.CeilInt, ops.Select, ops.Min2}

// opSpec is an operation on allocated operands.
func opSpec(o *ops.Op, cfg ops.Cfg, outputs bool) *spec {
	k := make([]byte, o.Arity)
	for i := range k {
		k[i] = 'f'
	}
	return &spec{name: o.Name, cfg: cfg, kind: k, body: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		ctx := ops.Context(api, cfg)
		a := make([]float.FloatVar, len(in))
		for i := range a {
			a[i] = ctx.NewFloat(in[i])
		}
		out := ops.Flatten(o.Run(ctx, a))
		if !outputs {
			return nil
		}
		return out
	}}
}

// constSpec is an operation whose k-th operand is a constant.
func constSpec(o *ops.Op, cfg ops.Cfg, k int, val uint64) *spec {
	kind := make([]byte, o.Arity-1)
	for i := range kind {
		kind[i] = 'f'
	}
	return &spec{name: fmt.Sprintf("%s with operand %d %#x", o.Name, k, val), cfg: cfg, kind: kind, body: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		ctx := ops.Context(api, cfg)
		a := make([]float.FloatVar, o.Arity)
		p := 0
		for i := range a {
			if i == k {
				a[i] = ctx.NewConstant(val)
				continue
			}
			a[i] = ctx.NewFloat(in[p])
			p++
		}
		return ops.Flatten(o.Run(ctx, a))
	}}
}

func mathSpec(name string, cfg ops.Cfg, arity int, f func(c *float.Context, a []float.FloatVar) []any) *spec {
	return opSpec(&ops.Op{Name: name, Arity: arity, Run: f}, cfg, false)
}

func gadgetSpec(name string, cfg ops.Cfg, arity int, f func(g *gadget.IntGadget, api frontend.API, in []frontend.Variable)) *spec {
	k := make([]byte, arity)
	for i := range k {
		k[i] = 'i'
	}
	return &spec{name: name, cfg: cfg, kind: k, body: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		f(gadget.New(api, cfg.RS, cfg.F.Bits()), api, in)
		return nil
	}}
}

func locSpec(name string, ft frontendtype.Type, f fp.Fmt, mk func(lat, lng, res, i, j, k frontend.Variable) frontend.Circuit) *spec {
	return &spec{name: name, cfg: ops.Cfg{F: f, FT: ft}, kind: []byte("ffiiii"),
		loc: func(v []frontend.Variable) frontend.Circuit { return mk(v[0], v[1], v[2], v[3], v[4], v[5]) }}
}

// specs lists circuits that together reach every hint.
func specs() []*spec {
	var l []*spec
	for i, o := range allOps {
		for j, f := range []fp.Fmt{fp.F64, fp.F32} {
			l = append(l, opSpec(o, ops.Cfg{F: f, FT: fts[(i+j)%2], RS: []uint{8, 0, 11}[(i+2*j)%3]}, false))
		}
	}
	for i, ft := range fts {
		c64, c32 := ops.Cfg{F: fp.F64, FT: ft, RS: 8}, ops.Cfg{F: fp.F32, FT: ft, RS: 8}
		l = append(l,
			mathSpec("atan64", c64, 1, func(c *float.Context, a []float.FloatVar) []any { return []any{maths.AtanRemez64(c, a[0])} }),
			mathSpec("sin32", c32, 1, func(c *float.Context, a []float.FloatVar) []any { return []any{maths.SinTaylor32(c, a[0])} }),
			mathSpec("equal", c64, 2, func(c *float.Context, a []float.FloatVar) []any { c.AssertIsEqual(a[0], a[1]); return nil }),
			mathSpec("ulp", c32, 2, func(c *float.Context, a []float.FloatVar) []any { c.AssertIsEqualOrULP(a[0], a[1]); return nil }),
			mathSpec("tolerance", c64, 2, func(c *float.Context, a []float.FloatVar) []any {
				c.AssertIsEqualOrCustomULP64(a[0], a[1], 1e-12)
				return nil
			}),
		)
		for n, mode := range []gadget.Mode{gadget.Loose, gadget.TightForSmallAbs, gadget.TightForUnknownRange} {
			l = append(l, gadgetSpec(fmt.Sprintf("bitlength-%d", n), ops.Cfg{F: fp.F64, FT: ft, RS: []uint{8, 0, 3}[(n+i)%3]}, 2, func(g *gadget.IntGadget, api frontend.API, in []frontend.Variable) {
				g.AssertBitLength(in[0], 61, mode)
				g.AssertBitLength(in[1], 3, mode)
			}))
		}
		l = append(l, gadgetSpec("integers", c64, 2, func(g *gadget.IntGadget, api frontend.API, in []frontend.Variable) {
			g.Abs(in[0], 60)
			g.Max(in[0], in[1], 60)
			g.Min(in[0], in[1], 60)
			g.IsEq(in[0], in[1])
		}), gadgetSpec("power", c64, 1, func(g *gadget.IntGadget, api frontend.API, in []frontend.Variable) {
			g.QueryPowerOf2(in[0])
		}), locSpec("loc64", ft, fp.F64, loc64.ZZCircuit64), locSpec("loc32", ft, fp.F32, loc32.ZZCircuit32), locSpec("loc32taylor", ft, fp.F32, loc32.ZZCircuitWrapper))
	}
	return l
}

// hostile draws a witness value no honest user would supply, or one near a valid one.
func hostile(rng *rand.Rand, field *big.Int, f fp.Fmt, kind byte) *big.Int {
	one := big.NewInt(1)
	k := uint(rng.Intn(field.BitLen()))
	v := new(big.Int)
	switch rng.Intn(11) {
	case 0:
		v.Sub(field, new(big.Int).Lsh(one, k))
	case 1:
		v.Lsh(one, k)
		v.Add(v, big.NewInt(int64(rng.Intn(3)-1)))
	case 2:
		v.Rand(rng, field)
	case 3:
		v.Sub(field, big.NewInt(int64(rng.Intn(100))))
	case 4:
		// a valid encoding plus something above it
		v.SetUint64(fp.NewGen(rng.Int63(), f).Any())
		v.Add(v, new(big.Int).Lsh(big.NewInt(int64(1+rng.Intn(5))), f.Bits()+uint(rng.Intn(8))))
	case 5:
		v.SetUint64(fp.NewGen(rng.Int63(), f).Any())
		v.Sub(field, v)
	case 6:
		// small
		v.SetInt64(int64(rng.Intn(200)))
	case 7:
		// inverses of small numbers
		v.ModInverse(big.NewInt(int64(2+rng.Intn(1000))), field)
	case 8:
		v.Rsh(field, uint(rng.Intn(4)))
		v.Add(v, big.NewInt(int64(rng.Intn(3)-1)))
	default:
		if kind == 'f' {
			v.SetUint64(fp.NewGen(rng.Int63(), f).Any())
		} else {
			v.Rand(rng, new(big.Int).Lsh(one, k))
		}
	}
	return v.Mod(v, field)
}

// valid draws an encoding or integer of the right kind.
func valid(rng *rand.Rand, f fp.Fmt, kind byte) *big.Int {
	if kind == 'f' {
		return new(big.Int).SetUint64(fp.NewGen(rng.Int63(), f).Any())
	}
	return big.NewInt(rng.Int63n(16))
}

func bn254() *big.Int { return ecc.BN254.ScalarField() }

func f32(v float32) uint32 { return math.Float32bits(v) }
