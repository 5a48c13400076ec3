// Package ops lists the circuit operations under check, each with its
// reference semantics, and runs them inside the monitoring engine.
package ops

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/frontendtype"
	"github.com/tumberger/zk-Location/float"

	"verif/harness/fp"
	"verif/harness/mon"
)

// Out is one expected output: either a number (Num) or an integer.
type Out struct {
	IsNum bool
	Bits  uint64 // Num: the encoding
	Int   *big.Int
}

// Op is a circuit operation over floating point operands.
type Op struct {
	Name  string
	Arity int
	// Run returns FloatVars and/or integer variables.
	Run func(c *float.Context, in []float.FloatVar) []any
	// Ref gives the expected outputs in the same order.
	Ref func(f fp.Fmt, in []uint64) []Out
	// Domain restricts operands (nil: everything).
	Domain func(f fp.Fmt, in []uint64) bool
}

func num(b uint64) Out { return Out{IsNum: true, Bits: b} }
func boolean(b bool) Out {
	if b {
		return Out{Int: big.NewInt(1)}
	}
	return Out{Int: big.NewInt(0)}
}

func bin(name string, run func(c *float.Context, x, y float.FloatVar) float.FloatVar, ref func(f fp.Fmt, x, y uint64) uint64) *Op {
	return &Op{Name: name, Arity: 2,
		Run: func(c *float.Context, in []float.FloatVar) []any { return []any{run(c, in[0], in[1])} },
		Ref: func(f fp.Fmt, in []uint64) []Out { return []Out{num(ref(f, in[0], in[1]))} }}
}
func un(name string, run func(c *float.Context, x float.FloatVar) float.FloatVar, ref func(f fp.Fmt, x uint64) uint64) *Op {
	return &Op{Name: name, Arity: 1,
		Run: func(c *float.Context, in []float.FloatVar) []any { return []any{run(c, in[0])} },
		Ref: func(f fp.Fmt, in []uint64) []Out { return []Out{num(ref(f, in[0]))} }}
}
func cmp(name string, run func(c *float.Context, x, y float.FloatVar) frontend.Variable, ref func(f fp.Fmt, x, y uint64) bool) *Op {
	return &Op{Name: name, Arity: 2,
		Run: func(c *float.Context, in []float.FloatVar) []any { return []any{run(c, in[0], in[1])} },
		Ref: func(f fp.Fmt, in []uint64) []Out { return []Out{boolean(ref(f, in[0], in[1]))} }}
}

var (
	Add   = bin("add", (*float.Context).Add, fp.Fmt.Add)
	Sub   = bin("sub", (*float.Context).Sub, fp.Fmt.Sub)
	Mul   = bin("mul", (*float.Context).Mul, fp.Fmt.Mul)
	Div   = bin("div", (*float.Context).Div, fp.Fmt.Div)
	Sqrt  = un("sqrt", (*float.Context).Sqrt, fp.Fmt.Sqrt)
	Neg   = un("neg", (*float.Context).Neg, fp.Fmt.Neg)
	Abs   = un("abs", (*float.Context).Abs, fp.Fmt.Abs)
	Trunc = un("trunc", (*float.Context).Trunc, fp.Fmt.Trunc)
	Floor = un("floor", (*float.Context).Floor, fp.Fmt.Floor)
	Ceil  = un("ceil", (*float.Context).Ceil, fp.Fmt.Ceil)
	Lt    = cmp("lt", (*float.Context).IsLt, fp.Fmt.Lt)
	Le    = cmp("le", (*float.Context).IsLe, fp.Fmt.Le)
	Gt    = cmp("gt", (*float.Context).IsGt, fp.Fmt.Gt)
	Ge    = cmp("ge", (*float.Context).IsGe, fp.Fmt.Ge)
)

func toInt(name string, rnd func(c *float.Context, x float.FloatVar) float.FloatVar, ref func(f fp.Fmt, x uint64) uint64) *Op {
	return &Op{Name: name, Arity: 1,
		Run: func(c *float.Context, in []float.FloatVar) []any {
			return []any{c.ToInt(rnd(c, in[0]))}
		},
		Ref: func(f fp.Fmt, in []uint64) []Out {
			x := f.Val(ref(f, in[0]))
			if x != x || x-x != 0 {
				return []Out{{Int: new(big.Int)}}
			}
			v, _ := new(big.Float).SetFloat64(x).Int(nil)
			return []Out{{Int: v}}
		},
		Domain: func(f fp.Fmt, in []uint64) bool {
			// integers of the format's own width: f32 to i32, f64 to i64
			return !f.IsAbn(in[0]) && !f.IsAbn(ref(f, in[0])) && f.Decode(in[0]).E <= int64(f.Bits())-2
		}}
}

var (
	TruncInt = toInt("toint-trunc", (*float.Context).Trunc, fp.Fmt.Trunc)
	FloorInt = toInt("toint-floor", (*float.Context).Floor, fp.Fmt.Floor)
	CeilInt  = toInt("toint-ceil", (*float.Context).Ceil, fp.Fmt.Ceil)
)

// Select chooses by the comparison x < y, so that the selector is a computed boolean.
var Select = &Op{Name: "select", Arity: 2,
	Run: func(c *float.Context, in []float.FloatVar) []any {
		b := c.IsLt(in[0], in[1])
		return []any{c.Select(b, in[0], in[1])}
	},
	Ref: func(f fp.Fmt, in []uint64) []Out {
		if f.Lt(in[0], in[1]) {
			return []Out{num(in[0])}
		}
		return []Out{num(in[1])}
	}}

// Min2 is |min(x, -y)|-style plumbing: sign operations composed with a comparison and its use as a selector.
var Min2 = &Op{Name: "signs", Arity: 2,
	Run: func(c *float.Context, in []float.FloatVar) []any {
		nx, ay := c.Neg(in[0]), c.Abs(in[1])
		b := c.IsGe(nx, ay)
		return []any{nx, ay, c.Neg(c.Abs(nx)), c.Select(b, nx, ay)}
	},
	Ref: func(f fp.Fmt, in []uint64) []Out {
		nx, ay := f.Neg(in[0]), f.Abs(in[1])
		r := []Out{num(nx), num(ay), num(f.Neg(f.Abs(nx)))}
		if f.Ge(nx, ay) {
			return append(r, num(nx))
		}
		return append(r, num(ay))
	}}

// Again does the operation twice in one circuit, with the operands exchanged.
func Again(o *Op) *Op {
	rev := func(n int, at func(i int)) {
		for i := n - 1; i >= 0; i-- {
			at(i)
		}
	}
	return &Op{Name: "repeated-" + o.Name, Arity: o.Arity, Domain: o.Domain,
		Run: func(c *float.Context, in []float.FloatVar) []any {
			var b []float.FloatVar
			rev(len(in), func(i int) { b = append(b, in[i]) })
			return append(o.Run(c, in), o.Run(c, b)...)
		},
		Ref: func(f fp.Fmt, in []uint64) []Out {
			var b []uint64
			rev(len(in), func(i int) { b = append(b, in[i]) })
			return append(o.Ref(f, in), o.Ref(f, b)...)
		}}
}

// Self gives a binary operation the same variables as both operands, also with
// the sign of one of them changed.
func Self(o *Op) *Op {
	return &Op{Name: "self-" + o.Name, Arity: 1,
		Run: func(c *float.Context, in []float.FloatVar) []any {
			x := in[0]
			n, a := c.Neg(x), c.Abs(x)
			var r []any
			for _, p := range [][2]float.FloatVar{{x, x}, {x, n}, {n, n}, {a, x}, {n, x}} {
				r = append(r, o.Run(c, []float.FloatVar{p[0], p[1]})...)
			}
			return r
		},
		Ref: func(f fp.Fmt, in []uint64) []Out {
			x := in[0]
			n, a := f.Neg(x), f.Abs(x)
			var r []Out
			for _, p := range [][2]uint64{{x, x}, {x, n}, {n, n}, {a, x}, {n, x}} {
				r = append(r, o.Ref(f, []uint64{p[0], p[1]})...)
			}
			return r
		}}
}

// Chain does the operation on its own result (and the last operand). Where
// the result is no number it is the operation alone.
func Chain(o *Op) *Op {
	num := func(f fp.Fmt, in []uint64) bool { return o.Ref(f, in)[0].IsNum }
	if !num(fp.E5M2, make([]uint64, o.Arity)) {
		return o
	}
	return &Op{Name: "chained-" + o.Name, Arity: o.Arity,
		Domain: func(f fp.Fmt, in []uint64) bool {
			if o.Domain == nil {
				return true
			}
			b := append([]uint64{o.Ref(f, in)[0].Bits}, in[1:]...)
			return o.Domain(f, in) && o.Domain(f, b)
		},
		Run: func(c *float.Context, in []float.FloatVar) []any {
			r := o.Run(c, in)
			return append(r, o.Run(c, append([]float.FloatVar{r[0].(float.FloatVar)}, in[1:]...))...)
		},
		Ref: func(f fp.Fmt, in []uint64) []Out {
			r := o.Ref(f, in)
			return append(r, o.Ref(f, append([]uint64{r[0].Bits}, in[1:]...))...)
		}}
}

// Flatten lists the variables of outputs.
func Flatten(out []any) []frontend.Variable {
	var r []frontend.Variable
	for _, o := range out {
		switch t := o.(type) {
		case float.FloatVar:
			r = append(r, t.Sign, t.Exponent, t.Mantissa, t.IsAbnormal)
		default:
			r = append(r, t)
		}
	}
	return r
}

// Values evaluates outputs to integers (signed representatives).
func Values(e *mon.Engine, vs []frontend.Variable) []*big.Int {
	r := make([]*big.Int, len(vs))
	for i := range vs {
		r[i] = e.SignedBig(vs[i])
	}
	return r
}

// Match compares the observed values with the expected outputs.
func Match(f fp.Fmt, want []Out, got []*big.Int) error {
	k := 0
	for i, w := range want {
		if !w.IsNum {
			if got[k].Cmp(w.Int) != 0 {
				return fmt.Errorf("output %d: got %v, want %v", i, got[k], w.Int)
			}
			k++
			continue
		}
		c := f.Decode(w.Bits)
		b := c.Big()
		for j := 0; j < 4; j++ {
			if j == 0 && c.IsNaN() {
				if got[k].Sign() != 0 && got[k].Cmp(one) != 0 {
					return fmt.Errorf("output %d: sign %v is not a bit", i, got[k])
				}
				continue
			}
			if got[k+j].Cmp(b[j]) != 0 {
				return fmt.Errorf("output %d: got (s=%v e=%v m=%#x abn=%v), want %v (bits %#x)", i, got[k], got[k+1], got[k+2], got[k+3], c, w.Bits)
			}
		}
		k += 4
	}
	if k != len(got) {
		return fmt.Errorf("%d outputs, want %d", len(got), k)
	}
	return nil
}

var one = big.NewInt(1)

// Cfg is one way of building a context.
type Cfg struct {
	F  fp.Fmt
	RS uint // range table width, 0 = chosen by the checker
	FT frontendtype.Type
}

func (c Cfg) String() string {
	ft := "r1cs"
	if c.FT == frontendtype.SCS {
		ft = "scs"
	}
	return fmt.Sprintf("%s/rs%d/%s", c.F.Name, c.RS, ft)
}

// Mode says how an operand reaches the circuit.
type Mode int

const (
	Wire       Mode = iota // component wires already constrained by earlier code
	Const                  // NewConstant
	Alloc                  // NewFloat from an encoded input
	AllocConst             // NewFloat from a constant encoding
)

// Input makes operand b.
func Input(e *mon.Engine, ctx *float.Context, f fp.Fmt, b uint64, m Mode) float.FloatVar {
	switch m {
	case Const:
		return ctx.NewConstant(b)
	case Alloc:
		return ctx.NewFloat(e.Input(new(big.Int).SetUint64(b)))
	case AllocConst:
		return ctx.NewFloat(new(big.Int).SetUint64(b))
	}
	c := f.Decode(b).Big()
	return float.FloatVar{Sign: e.InputBool(c[0]), Exponent: e.Input(c[1]), Mantissa: e.Input(c[2]), IsAbnormal: e.InputBool(c[3])}
}

// NewEngine prepares an engine for the configuration.
func NewEngine(c Cfg) *mon.Engine {
	e := mon.New()
	e.FT = c.FT
	return e
}

// Context builds the float context of /repo.
func Context(api frontend.API, c Cfg) *float.Context {
	ctx := float.NewContext(api, c.RS, c.F.E, c.F.M)
	return &ctx
}

// Float reads a number from four component wires, constraining what NewFloat would.
func Float(api frontend.API, v []frontend.Variable) float.FloatVar {
	api.AssertIsBoolean(v[0])
	api.AssertIsBoolean(v[3])
	return float.FloatVar{Sign: v[0], Exponent: v[1], Mantissa: v[2], IsAbnormal: v[3]}
}

// Body is the operation as a circuit over component wires.
func (o *Op) Body(c Cfg) func(api frontend.API, in []frontend.Variable) []frontend.Variable {
	return func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		ctx := Context(api, c)
		a := make([]float.FloatVar, o.Arity)
		for i := range a {
			a[i] = Float(api, in[4*i:4*i+4])
		}
		return Flatten(o.Run(ctx, a))
	}
}

// Comps lists the component values of operands.
func Comps(f fp.Fmt, in []uint64) []*big.Int {
	var r []*big.Int
	for _, b := range in {
		c := f.Decode(b).Big()
		r = append(r, c[0], c[1], c[2], c[3])
	}
	return r
}

// NaNEqual compares output vectors of numbers, ignoring the sign of NaN.
func (o *Op) NaNEqual(f fp.Fmt, in []uint64) func(a, b []*big.Int) bool {
	want := o.Ref(f, in)
	return func(a, b []*big.Int) bool {
		k := 0
		for _, w := range want {
			if !w.IsNum {
				if a[k].Cmp(b[k]) != 0 {
					return false
				}
				k++
				continue
			}
			for j := 0; j < 4; j++ {
				if j == 0 && f.IsNaN(w.Bits) {
					continue
				}
				if a[k+j].Cmp(b[k+j]) != 0 {
					return false
				}
			}
			k += 4
		}
		return true
	}
}

// Signed is the representative of smallest absolute value.
func Signed(v *big.Int) *big.Int {
	v = new(big.Int).Mod(v, mon.Modulus)
	if v.Cmp(new(big.Int).Rsh(mon.Modulus, 1)) > 0 {
		v.Sub(v, mon.Modulus)
	}
	return v
}
