package checks

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/util"

	"verif/harness/fp"
	"verif/harness/ops"
	"verif/harness/rep"
)

// identity observes an operand as it was allocated.
var identity = &ops.Op{Name: "allocate", Arity: 1,
	Run: func(c *float.Context, in []float.FloatVar) []any { return []any{in[0]} },
	Ref: func(f fp.Fmt, in []uint64) []ops.Out { return []ops.Out{{IsNum: true, Bits: in[0]}} }}

func codecCheck(r *rep.R) {
	r.Rule = "encodings: all of E4M3, E5M2, E4M4 and binary16 (bfloat16 too in the thorough tier), every exponent of binary32/binary64 with boundary mantissas, and structured random ones; each is allocated from a wire and as a constant in the circuit (some as the constant of an allocation), and taken apart and reassembled by the host-side codec; non-trivial when components were observed"
	r.Assume = []string{"the reference decoder of this framework states the documented representation"}
	var ss []*stream
	opl := []*ops.Op{identity}
	add := func(s *stream, b uint64) {
		s.add(Case{Op: identity, In: []uint64{b}, Modes: []ops.Mode{ops.Alloc}})
		s.add(Case{Op: identity, In: []uint64{b}, Modes: []ops.Mode{ops.Const}})
		if rep.Mix(b)%4 == 0 {
			s.add(Case{Op: identity, In: []uint64{b}, Modes: []ops.Mode{ops.AllocConst}})
		}
		hostCodec(r, s.f, b)
	}
	for _, f := range hwFmts {
		s := &stream{r: r, f: f, what: "near", realEvery: 20}
		f.Near(func(b uint64) { add(s, b) })
		w := &stream{r: r, f: f, what: "rnd", realEvery: 15}
		g := fp.NewGen(int64(rep.Mix(uint64(r.Seed), rep.Str("codec"+f.Name))>>1), f)
		for i := 0; i < r.N(60000, 2000000); i++ {
			add(w, g.Any())
		}
		ss = append(ss, s, w)
	}
	small := []fp.Fmt{fp.E4M3, fp.E5M2, fp.E4M4, fp.F16}
	if r.Thorough() {
		small = append(small, fp.BF16)
	}
	for _, f := range small {
		s := &stream{r: r, f: f, what: "all", cfgs: smallCfg, realEvery: 30}
		for b := uint64(0); b < 1<<f.Bits(); b++ {
			add(s, b)
		}
		ss = append(ss, s)
	}
	for _, f := range hwFmts {
		for _, b := range []uint64{f.Of(-2.5), 3, f.NaN(), f.Inf(1)} {
			r.Sample(Case{Op: identity, In: []uint64{b}, Modes: []ops.Mode{ops.Alloc}}.String(f) + " -> " + refString(f, identity, []uint64{b}))
		}
	}
	runStreams(r, ss...)
	probeConst(r, opl)
	typedConstants(r)
}

// hostCodec checks the codec outside the circuit on one encoding.
func hostCodec(r *rep.R, f fp.Fmt, b uint64) {
	r.Eval(1)
	c := f.Decode(b)
	want := c.Big()
	got, p := try(func() any { return util.ComponentsOf(b, uint64(f.E), uint64(f.M)) })
	bad := func(what string, v any) {
		r.Violate("host/"+what+"/"+f.Name, fmt.Sprintf("%s of %s %#x (%v): got %v, want %v", what, f.Name, b, f.Val(b), v, c), map[string]any{"format": f.Name, "encoding": fmt.Sprintf("%#x", b)})
	}
	if p != nil {
		bad("decoding", p)
		return
	}
	comp := got.([]*big.Int)
	for i := range want {
		if len(comp) != 4 || comp[i].Cmp(want[i]) != 0 {
			bad("decoding", comp)
			return
		}
	}
	back, p := try(func() any { return util.ValueOf(want[:], uint64(f.E), uint64(f.M)) })
	if p != nil {
		bad("encoding", p)
		return
	}
	if !f.Same(back.(uint64), b) || f.IsNaN(b) && f.Sign(back.(uint64)) != f.Sign(b) {
		bad("encoding", fmt.Sprintf("%#x", back))
		return
	}
	switch f.Name {
	case fp.F32.Name:
		v := math.Float32frombits(uint32(b))
		x, p := try(func() any { return util.ComponentsToF32(util.F32ToComponents(v)) })
		if p != nil || math.Float32bits(x.(float32)) != uint32(b) && v == v {
			bad("round trip", fmt.Sprint(x, p))
		}
		h, err := util.HexToFloat32(fmt.Sprintf("%x", b))
		if err != nil || math.Float32bits(h) != uint32(b) && v == v {
			bad("hexadecimal", fmt.Sprint(h, err))
		}
	case fp.F64.Name:
		v := math.Float64frombits(b)
		x, p := try(func() any { return util.ComponentsToF64(util.F64ToComponents(v)) })
		if p != nil || math.Float64bits(x.(float64)) != b && v == v {
			bad("round trip", fmt.Sprint(x, p))
		}
		h, err := util.HexToFloat(fmt.Sprintf("%x", b))
		if err != nil || math.Float64bits(h) != b && v == v {
			bad("hexadecimal", fmt.Sprint(h, err))
		}
	}
}

func try(f func() any) (v any, p any) {
	defer func() { p = recover() }()
	return f(), nil
}

// typedConstants: the constructors from Go floats agree with the encodings.
func typedConstants(r *rep.R) {
	rng := rngFor(r, "typed", 0)
	for i := 0; i < 4000; i++ {
		f := hwFmts[i%2]
		g := fp.NewGen(rng.Int63(), f)
		b := g.Any()
		e := ops.NewEngine(ops.Cfg{F: f, RS: 8})
		var got []*big.Int
		e.Run(func(api frontend.API) {
			ctx := ops.Context(api, ops.Cfg{F: f, RS: 8})
			var v float.FloatVar
			if f.Name == fp.F32.Name {
				v = ctx.NewF32Constant(math.Float32frombits(uint32(b)))
			} else {
				v = ctx.NewF64Constant(math.Float64frombits(b))
			}
			got = ops.Values(e, ops.Flatten([]any{v}))
		})
		r.Eval(1)
		r.Count("typed constants", 1)
		if got == nil {
			r.Violate("typed/"+f.Name, fmt.Sprintf("constant %v cannot be made", f.Val(b)), map[string]any{"encoding": fmt.Sprintf("%#x", b)})
			return
		}
		if err := ops.Match(f, []ops.Out{{IsNum: true, Bits: b}}, got); err != nil {
			r.Violate("typed/"+f.Name, fmt.Sprintf("constant %v: %v", f.Val(b), err), map[string]any{"encoding": fmt.Sprintf("%#x", b)})
			return
		}
	}
}

// node is one step of a straight line program.
type node struct {
	op   string
	a, b int
	c, d int // comparison of select
	k    uint64
}

// program is a straight-line program over n inputs.
type program struct {
	n     int
	nodes []node
}

var unaryOps = map[string]func(c *float.Context, x float.FloatVar) float.FloatVar{
	"neg": (*float.Context).Neg, "abs": (*float.Context).Abs, "sqrt": (*float.Context).Sqrt,
	"trunc": (*float.Context).Trunc, "floor": (*float.Context).Floor, "ceil": (*float.Context).Ceil,
}
var binaryOps = map[string]func(c *float.Context, x, y float.FloatVar) float.FloatVar{
	"add": (*float.Context).Add, "sub": (*float.Context).Sub, "mul": (*float.Context).Mul, "div": (*float.Context).Div,
}
var unaryRef = map[string]func(f fp.Fmt, x uint64) uint64{
	"neg": fp.Fmt.Neg, "abs": fp.Fmt.Abs, "sqrt": fp.Fmt.Sqrt, "trunc": fp.Fmt.Trunc, "floor": fp.Fmt.Floor, "ceil": fp.Fmt.Ceil,
}
var binaryRef = map[string]func(f fp.Fmt, x, y uint64) uint64{
	"add": fp.Fmt.Add, "sub": fp.Fmt.Sub, "mul": fp.Fmt.Mul, "div": fp.Fmt.Div,
}
var opNames = []string{"add", "sub", "mul", "div", "add", "sub", "mul", "sqrt", "neg", "abs", "trunc", "floor", "ceil", "lt", "le", "gt", "ge", "const"}

func (p *program) step(f fp.Fmt, v []uint64, n node) uint64 {
	if u, ok := unaryRef[n.op]; ok {
		return u(f, v[n.a])
	}
	if b, ok := binaryRef[n.op]; ok {
		return b(f, v[n.a], v[n.b])
	}
	var c bool
	switch n.op {
	case "const":
		return n.k
	case "lt":
		c = f.Lt(v[n.c], v[n.d])
	case "le":
		c = f.Le(v[n.c], v[n.d])
	case "gt":
		c = f.Gt(v[n.c], v[n.d])
	case "ge":
		c = f.Ge(v[n.c], v[n.d])
	}
	if c {
		return v[n.a]
	}
	return v[n.b]
}

func (p *program) String() string {
	s := ""
	for i, n := range p.nodes {
		switch n.op {
		case "const":
			s += fmt.Sprintf("v%d=%#x ", p.n+i, n.k)
		case "lt", "le", "gt", "ge":
			s += fmt.Sprintf("v%d=%s(v%d,v%d)?v%d:v%d ", p.n+i, n.op, n.c, n.d, n.a, n.b)
		default:
			s += fmt.Sprintf("v%d=%s(v%d,v%d) ", p.n+i, n.op, n.a, n.b)
		}
	}
	return s
}

// makeProgram draws a program together with inputs on which most values stay finite.
func makeProgram(g *fp.Gen, rng *rand.Rand, size int) (*program, []uint64) {
	f := g.F
	p := &program{n: 1 + rng.Intn(4)}
	var v []uint64
	for i := 0; i < p.n; i++ {
		switch rng.Intn(4) {
		case 0:
			v = append(v, g.Any())
		case 1:
			v = append(v, g.Roundish())
		default:
			v = append(v, f.Of((rng.Float64()*2-1)*math.Ldexp(1, rng.Intn(12)-4)))
		}
	}
	in := append([]uint64(nil), v...)
	p.extend(g, rng, v, size)
	return p, in
}

// extend draws nodes on the values v.
func (p *program) extend(g *fp.Gen, rng *rand.Rand, v []uint64, size int) {
	f := g.F
	pick := func() int {
		if rng.Intn(2) == 0 && len(v) > 3 {
			return len(v) - 1 - rng.Intn(3)
		}
		return rng.Intn(len(v))
	}
	for len(p.nodes) < size {
		n := node{op: opNames[rng.Intn(len(opNames))], a: pick(), b: pick(), c: pick(), d: pick()}
		if n.op == "const" {
			n.k = g.Any()
		}
		if rng.Intn(10) == 0 {
			n.b = n.a
		}
		x := p.step(f, v, n)
		if f.IsAbn(x) && rng.Intn(8) != 0 {
			continue
		}
		p.nodes = append(p.nodes, n)
		v = append(v, x)
	}
}

// op turns the program into an operation that outputs every value, with the
// sign of NaN, which is not determined, masked.
func (p *program) op() *ops.Op {
	return &ops.Op{Name: "program", Arity: p.n,
		Run: func(c *float.Context, in []float.FloatVar) []any {
			v := append([]float.FloatVar(nil), in...)
			var out []any
			for _, n := range p.nodes {
				x := n.emit(c, v)
				v = append(v, x)
				out = append(out, masked(c, x)...)
			}
			return out
		},
		Ref: func(f fp.Fmt, in []uint64) []ops.Out {
			v := append([]uint64(nil), in...)
			var out []ops.Out
			for _, n := range p.nodes {
				x := p.step(f, v, n)
				v = append(v, x)
				out = append(out, maskedRef(f, x)...)
			}
			return out
		}}
}

// emit adds the step to the circuit.
func (n node) emit(c *float.Context, v []float.FloatVar) float.FloatVar {
	if u, ok := unaryOps[n.op]; ok {
		return u(c, v[n.a])
	}
	if b, ok := binaryOps[n.op]; ok {
		return b(c, v[n.a], v[n.b])
	}
	var s frontend.Variable
	switch n.op {
	case "const":
		return c.NewConstant(n.k)
	case "lt":
		s = c.IsLt(v[n.c], v[n.d])
	case "le":
		s = c.IsLe(v[n.c], v[n.d])
	case "gt":
		s = c.IsGt(v[n.c], v[n.d])
	default:
		s = c.IsGe(v[n.c], v[n.d])
	}
	return c.Select(s, v[n.a], v[n.b])
}

// masked lists the components, the sign of NaN being masked.
func masked(c *float.Context, x float.FloatVar) []any {
	nan := c.Api.Mul(x.IsAbnormal, c.Api.IsZero(x.Mantissa))
	return []any{c.Api.Mul(x.Sign, c.Api.Sub(1, nan)), x.Exponent, x.Mantissa, x.IsAbnormal}
}

func maskedRef(f fp.Fmt, x uint64) []ops.Out {
	b := f.Decode(x).Big()
	if f.IsNaN(x) {
		b[0] = new(big.Int)
	}
	var out []ops.Out
	for _, y := range b {
		out = append(out, ops.Out{Int: y})
	}
	return out
}

// mixed is a program together with a second one, step by step in turn, in a
// context of a wider format on the same inputs, widened.
type mixed struct {
	p, q program
	w    fp.Fmt
	rs   uint
	turn []bool // whose step is next
}

// widen converts a number to the wider context.
func widen(c, d *float.Context, x float.FloatVar) float.FloatVar {
	api := c.Api
	zero := api.Sub(api.IsZero(x.Mantissa), api.Mul(api.IsZero(x.Mantissa), x.IsAbnormal))
	return float.FloatVar{
		Sign:       x.Sign,
		Exponent:   api.Select(x.IsAbnormal, d.E_MAX, api.Select(zero, d.E_MIN, x.Exponent)),
		Mantissa:   api.Mul(x.Mantissa, new(big.Int).Lsh(big.NewInt(1), d.M-c.M)),
		IsAbnormal: x.IsAbnormal,
	}
}

// both runs the two programs in turn.
func (m *mixed) both(p, q func(n node)) {
	i, j := 0, 0
	for _, first := range m.turn {
		if first {
			p(m.p.nodes[i])
			i++
		} else {
			q(m.q.nodes[j])
			j++
		}
	}
}

func (m *mixed) op() *ops.Op {
	return &ops.Op{Arity: m.p.n,
		Run: func(c *float.Context, in []float.FloatVar) []any {
			ctx := float.NewContext(c.Api, m.rs, m.w.E, m.w.M)
			d := &ctx
			v := append([]float.FloatVar(nil), in...)
			var w []float.FloatVar
			for _, x := range in {
				w = append(w, widen(c, d, x))
			}
			var out []any
			m.both(func(n node) {
				x := n.emit(c, v)
				v = append(v, x)
				out = append(out, masked(c, x)...)
			}, func(n node) {
				x := n.emit(d, w)
				w = append(w, x)
				out = append(out, masked(d, x)...)
			})
			return out
		},
		Ref: func(f fp.Fmt, in []uint64) []ops.Out {
			v := append([]uint64(nil), in...)
			w := m.widened(f, in)
			var out []ops.Out
			m.both(func(n node) {
				x := m.p.step(f, v, n)
				v = append(v, x)
				out = append(out, maskedRef(f, x)...)
			}, func(n node) {
				x := m.q.step(m.w, w, n)
				w = append(w, x)
				out = append(out, maskedRef(m.w, x)...)
			})
			return out
		}}
}

func (m *mixed) widened(f fp.Fmt, in []uint64) []uint64 {
	var w []uint64
	for _, x := range in {
		w = append(w, m.w.Of(f.Val(x)))
	}
	return w
}

func programCheck(r *rep.R) {
	r.Rule = "random straight-line programs of up to 24 operations over binary32, binary64 and bfloat16, some in step with a second program in a context of a wider format; every intermediate result is compared with the reference, in the representation's unique canonical form; non-trivial when all intermediate values were observed"
	r.Assume = []string{"the hardware's binary32/binary64 arithmetic is the IEEE-754 reference"}
	n := r.N(5000, 200000)
	fmts := []fp.Fmt{fp.F32, fp.F64, fp.F32, fp.F64, fp.BF16}
	r.Parallel(n, func(i int) {
		rng := rngFor(r, "program", i)
		f := fmts[i%len(fmts)]
		g := fp.NewGen(int64(rep.Mix(uint64(r.Seed), rep.Str(r.ID), uint64(i))>>1), f)
		p, in := makeProgram(g, rng, 2+rng.Intn(23))
		op := p.op()
		op.Name = fmt.Sprintf("program-%d[%s]", i, p)
		cfg := pickCfg(rng, f)
		if f.M < 52 && i%4 == 1 {
			m := &mixed{p: *p, q: program{n: p.n}, w: fp.F64, rs: pickCfg(rng, fp.F64).RS}
			if f.M < 23 && rng.Intn(2) == 0 {
				m.w = fp.F32
			}
			h := fp.NewGen(int64(rep.Mix(uint64(r.Seed), rep.Str(r.ID), uint64(i), 7)>>1), m.w)
			m.q.extend(h, rng, m.widened(f, in), 1+rng.Intn(16))
			for range p.nodes {
				m.turn = append(m.turn, true)
			}
			for range m.q.nodes {
				m.turn = append(m.turn, false)
			}
			rng.Shuffle(len(m.turn), func(a, b int) { m.turn[a], m.turn[b] = m.turn[b], m.turn[a] })
			op = m.op()
			op.Name = fmt.Sprintf("program-%d[%s| %s/rs%d %s]", i, p, m.w.Name, m.rs, &m.q)
			r.Count("operations of a second context composed", int64(len(m.q.nodes)))
		}
		c := Case{Op: op, In: in, Modes: make([]ops.Mode, p.n)}
		for k := range c.Modes {
			c.Modes[k] = ops.Mode(rng.Intn(4))
		}
		r.Count("operations composed", int64(len(p.nodes)))
		if i < 3 {
			r.Sample(cfg.String() + " " + c.String(f))
		}
		if i%25 == 0 {
			checkReal(r, cfg, []Case{c}, rng, 2)
		} else {
			checkCases(r, cfg, []Case{c})
		}
	})
}

func init() {
	All["C07"] = codecCheck
	All["C09"] = programCheck
}
