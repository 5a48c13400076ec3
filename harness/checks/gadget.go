package checks

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/gadget"

	"verif/harness/attack"
	"verif/harness/fp"
	"verif/harness/mon"
	"verif/harness/ops"
	"verif/harness/rep"
)

// gcfg is one way of building the integer gadgets.
type gcfg struct {
	ops.Cfg
	pow2 uint
}

func (c gcfg) String() string { return fmt.Sprintf("%v/pow2=%d", c.Cfg, c.pow2) }

func pickG(rng *rand.Rand) gcfg {
	f := []fp.Fmt{fp.F32, fp.F64, fp.E5M2}[rng.Intn(3)]
	c := gcfg{Cfg: soundCfg(rng, f), pow2: f.Bits()}
	if rng.Intn(3) == 0 {
		c.pow2 = uint(3 + rng.Intn(80))
	}
	return c
}

func p2(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }

func randBits(rng *rand.Rand, n uint) *big.Int {
	if n == 0 {
		return new(big.Int)
	}
	return new(big.Int).Rand(rng, p2(n))
}

// edge draws a value of at most n bits, often near the limits.
func edge(rng *rand.Rand, n uint) *big.Int {
	switch rng.Intn(7) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(1)
	case 2:
		return new(big.Int).Sub(p2(n), big.NewInt(1))
	case 3:
		if n > 0 {
			return p2(uint(rng.Intn(int(n))))
		}
		return new(big.Int)
	case 4:
		if n > 1 {
			k := uint(1 + rng.Intn(int(n)))
			return new(big.Int).Sub(p2(k), big.NewInt(1))
		}
	}
	return randBits(rng, n)
}

func signedMod(v *big.Int) *big.Int { return new(big.Int).Mod(v, mon.Modulus) }

// forgeAny looks for any accepted execution on inputs that must be rejected.
// Each strategy replaces hint outputs; nil is the honest prover.
func forgeAny(r *rep.R, cfg ops.Cfg, name, desc string, body attack.Body, in []*big.Int, strategies []func(site int, deferred bool, in, out []*big.Int)) {
	for k, s := range strategies {
		eng := ops.NewEngine(cfg)
		eng.Record = true
		s := s
		eng.Tamper = func(e *mon.Engine, site int, fn string, hin, out []*big.Int) {
			if s != nil {
				s(site, e.InDefer, hin, out)
			}
		}
		var outs []*big.Int
		fail := eng.Run(func(api frontend.API) {
			vars := make([]frontend.Variable, len(in))
			for i := range in {
				vars[i] = eng.Input(in[i])
			}
			for _, x := range body(api, vars) {
				outs = append(outs, eng.Big(x))
			}
		})
		r.Eval(1)
		if fail != nil {
			r.Count("executions on inputs out of range rejected by "+fail.Kind, 1)
			continue
		}
		fg := &attack.Forgery{Kind: "any", Forged: outs}
		for _, st := range eng.Sites {
			for i := range st.Honest {
				if st.Honest[i].Cmp(st.Used[i]) != 0 {
					fg.Calls = append(fg.Calls, st)
					break
				}
			}
		}
		cs, err := attack.Compile(attack.BN254(), cfg.FT, len(in), len(outs), body)
		if err != nil {
			r.Broken("compile %s: %v", desc, err)
			return
		}
		w, err := attack.Witness(attack.BN254(), in, outs)
		if err != nil {
			r.Broken("witness: %v", err)
			return
		}
		if err := attack.Solve(cs, w, fg); err != nil {
			r.Count("forgeries not reproduced by the real solver", 1)
			continue
		}
		var calls []string
		for _, c := range fg.Calls {
			calls = append(calls, fmt.Sprintf("%s%v -> %v", c.Fn, c.In, c.Used))
		}
		r.Violate("accepts/"+name, fmt.Sprintf("%v %s: the real constraint system accepts it (strategy %d, outputs %v)", cfg, desc, k, outs),
			map[string]any{"config": cfg.String(), "case": desc, "hints": calls})
		return
	}
}

// limbStrategies are the ways of splitting value into n limbs of base bits
// that a malicious prover may try.
func limbStrategies(base uint) []func(site int, deferred bool, in, out []*big.Int) {
	var l []func(site int, deferred bool, in, out []*big.Int)
	l = append(l, nil)
	// compute limbs of v (or of v-p), the excess going to limb j
	for _, neg := range []bool{false, true} {
		for j := 0; j < 6; j++ {
			neg, j := neg, j
			l = append(l, func(site int, deferred bool, in, out []*big.Int) {
				if !deferred || len(in) != 4 || len(out) < 2 {
					return
				}
				b := uint(in[1].Uint64())
				v := signedMod(new(big.Int).Mul(in[2], in[3]))
				if neg {
					v.Sub(v, mon.Modulus)
				}
				jj := len(out) - 1 - j
				if jj < 0 {
					jj = 0
				}
				rest := new(big.Int).Set(v)
				mask := new(big.Int).Sub(p2(b), big.NewInt(1))
				for i := range out {
					if i == jj {
						continue
					}
					x := new(big.Int).Rsh(v, b*uint(i))
					if v.Sign() < 0 {
						x = new(big.Int).And(x, mask) // two's complement digits
					} else {
						x.And(x, mask)
					}
					out[i].Set(x)
					rest.Sub(rest, new(big.Int).Lsh(x, b*uint(i)))
				}
				inv := new(big.Int).ModInverse(p2(b*uint(jj)), mon.Modulus)
				out[jj].Mod(rest.Mul(rest, inv), mon.Modulus)
			})
		}
	}
	return l
}

func gadgetCheck(r *rep.R) {
	r.Rule = "range checks of every mode over drawn bit lengths, range table widths, builders and values in and out of range (in: must be accepted; out: no splitting into limbs tried by a malicious prover may be accepted), and absolute value, sign, minimum, maximum, equality and power-of-two queries attacked like arithmetic; non-trivial when an execution was observed"
	r.Assume = append([]string{"exponents of power-of-two queries are integers (of any size up to 100 bits), as every caller guarantees: among arbitrary field elements the packed table has aliases", "a range check bounds a value only up to the size its mode documents: whole limbs for the loose mode, values that do not wrap around the field for the mode for small absolute values"}, soundAssume...)
	n := r.N(3600, 150000)
	r.Parallel(r.N(40, 2000), func(i int) {
		rng := rngFor(r, "crowd", i)
		crowdCase(r, rng, pickG(rng), i)
	})
	r.Parallel(n, func(i int) {
		rng := rngFor(r, "gadget", i)
		c := pickG(rng)
		switch i % 9 {
		case 0, 1, 2, 3:
			rangeCase(r, rng, c, i)
		case 4:
			pow2Case(r, rng, c, i)
		case 5, 6, 7:
			intCase(r, rng, c, i)
		default:
			mixedCase(r, rng, c, i)
		}
	})
}

func decomp(bits, base uint) uint { return (bits + base - 1) / base }

var modeName = map[gadget.Mode]string{gadget.Loose: "loose", gadget.TightForSmallAbs: "small-abs", gadget.TightForUnknownRange: "unknown"}

func rangeCase(r *rep.R, rng *rand.Rand, c gcfg, i int) {
	if c.RS == 0 && rng.Intn(3) > 0 {
		c.RS = 8
	}
	bits := uint(1 + rng.Intn(120))
	if rng.Intn(3) == 0 && c.RS > 0 {
		bits = c.RS*uint(1+rng.Intn(4)) + uint(rng.Intn(3)) - 1
		if bits < 1 {
			bits = 1
		}
	}
	mode := []gadget.Mode{gadget.Loose, gadget.TightForSmallAbs, gadget.TightForUnknownRange}[rng.Intn(3)]
	body := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		g := gadget.New(api, c.RS, c.pow2)
		g.AssertBitLength(in[0], bits, mode)
		return nil
	}
	// the checked value may be a constant of the circuit
	isConst := rng.Intn(4) == 0
	bodyOf := func(v *big.Int) attack.Body {
		if !isConst {
			return body
		}
		return func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			g := gadget.New(api, c.RS, c.pow2)
			api.AssertIsEqual(in[0], v)
			g.AssertBitLength(new(big.Int).Set(v), bits, mode)
			return nil
		}
	}
	key := rep.Mix(uint64(bits), uint64(mode), uint64(c.RS), uint64(c.FT))
	desc := func(v *big.Int) string {
		if isConst {
			return fmt.Sprintf("range check (%s) of the constant %v for %d bits", modeName[mode], ops.Signed(v), bits)
		}
		return fmt.Sprintf("range check (%s) of %v for %d bits", modeName[mode], ops.Signed(v), bits)
	}
	for k := 0; k < 4; k++ {
		v := edge(rng, bits)
		e := ops.NewEngine(c.Cfg)
		fail := e.Run(func(api frontend.API) { bodyOf(v)(api, []frontend.Variable{e.Input(v)}) })
		r.Eval(1)
		r.Count("range checks in range", 1)
		r.Distinct(rep.Mix(key, v.Uint64()))
		if fail == nil && isConst && k == 0 && c.RS < 10 {
			// the builders treat constants specially
			r.Count("range checks of constants by the real solver", 1)
			if err := realSolve(c.Cfg, withPub(bodyOf(v)), []*big.Int{v}, []*big.Int{v}); err != nil {
				r.Violate("range-complete/"+modeName[mode], fmt.Sprintf("%v %s: the real constraint system rejects it: %v", c, desc(v), trim(err)), map[string]any{"config": c.String(), "case": desc(v)})
				return
			}
		}
		if fail != nil {
			if err := realSolve(c.Cfg, withPub(bodyOf(v)), []*big.Int{v}, []*big.Int{v}); err != nil {
				r.Violate("range-complete/"+modeName[mode], fmt.Sprintf("%v %s: rejected: %v; real solver: %v", c, desc(v), fail, trim(err)), map[string]any{"config": c.String(), "case": desc(v)})
				return
			}
			r.Broken("engine and solver disagree: %v %s: %v", c, desc(v), fail)
			return
		}
	}
	// out of range
	base := c.RS
	limit := bits
	if mode == gadget.Loose {
		if base == 0 {
			limit = bits + 17
		} else {
			limit = decomp(bits, base) * base
		}
	}
	var out []*big.Int
	out = append(out, p2(limit), new(big.Int).Add(p2(limit), edge(rng, limit)), new(big.Int).Sub(p2(limit+1), big.NewInt(1)))
	neg := edge(rng, bits)
	if neg.Sign() == 0 {
		neg.SetInt64(1)
	}
	out = append(out, signedMod(neg.Neg(neg)))
	if base > 0 {
		diff := decomp(bits, base)*base - bits
		if mode != gadget.TightForSmallAbs {
			// not an integer of any small size
			out = append(out, randBits(rng, 253))
			if diff > 0 {
				// top limb fractional, such that its shifted form is in range
				n := decomp(bits, base)
				t := new(big.Int).ModInverse(p2(diff), mon.Modulus)
				t.Mul(t, new(big.Int).Add(randBits(rng, base-1), big.NewInt(1)))
				t.Mul(t, p2(base*(n-1)))
				out = append(out, signedMod(t))
			}
			t := new(big.Int).ModInverse(p2(1+uint(rng.Intn(30))), mon.Modulus)
			out = append(out, t)
		} else {
			out = append(out, new(big.Int).Add(p2(bits+uint(rng.Intn(20))), edge(rng, bits)))
		}
	}
	for _, v := range out {
		if v.Cmp(p2(limit)) < 0 {
			continue
		}
		r.Count("range checks out of range", 1)
		r.Distinct(rep.Mix(key, v.Uint64(), 7))
		forgeAny(r, c.Cfg, "range-"+modeName[mode], c.String()+" "+desc(v), bodyOf(v), []*big.Int{v}, limbStrategies(base))
	}
	if i < 8 {
		r.Sample(c.String() + " " + desc(out[0]) + " -> rejected")
	}
}

// withPub adds an output so that a claim is never empty.
func withPub(b attack.Body) attack.Body {
	return func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		return append(b(api, in), in[0])
	}
}

func pow2Case(r *rep.R, rng *rand.Rand, c gcfg, i int) {
	body := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		g := gadget.New(api, c.RS, c.pow2)
		return []frontend.Variable{g.QueryPowerOf2(in[0])}
	}
	e := uint(rng.Intn(int(c.pow2)))
	switch rng.Intn(4) {
	case 0:
		e = c.pow2 - 1
	case 1:
		e = 0
	}
	desc := fmt.Sprintf("2^%d", e)
	t := &target{name: "pow2", desc: c.String() + " " + desc, cfg: c.Cfg, body: body, in: []*big.Int{big.NewInt(int64(e))}, want: []*big.Int{p2(e)}, bits: int(c.pow2) + 4, tb: int(c.pow2),
		key: rep.Mix(uint64(e), uint64(c.pow2), uint64(c.RS), uint64(c.FT))}
	if rng.Intn(4) == 0 {
		t.defer_ = true
	}
	checkTarget(r, t)
	forge(r, t)
	// exponents out of the table
	x := new(big.Int).Add(big.NewInt(int64(c.pow2)), big.NewInt(int64(rng.Intn(4))))
	switch rng.Intn(4) {
	case 0:
		x = signedMod(big.NewInt(-1 - int64(rng.Intn(5))))
	case 1:
		x = new(big.Int).Add(big.NewInt(int64(c.pow2)), randBits(rng, 100))
	case 2:
		x = signedMod(new(big.Int).Neg(new(big.Int).Add(big.NewInt(1), randBits(rng, 64))))
	}
	var st []func(site int, deferred bool, in, out []*big.Int)
	first := func(v *big.Int) {
		v = signedMod(v)
		st = append(st, func(site int, deferred bool, in, out []*big.Int) {
			if !deferred && len(out) == 1 {
				out[0].Set(v)
			}
		})
	}
	for k := uint(0); k < c.pow2; k++ {
		v := new(big.Int).Sub(big.NewInt(int64(k)), x)
		first(v.Add(v.Lsh(v, c.pow2), p2(k)))
		if k%4 == 0 {
			first(p2(k))
		}
	}
	if x.IsInt64() && x.Int64() < 250 {
		first(p2(uint(x.Int64())))
	}
	forgeAny(r, c.Cfg, "pow2-range", fmt.Sprintf("%v power of two with exponent %v", c, ops.Signed(x)), body, []*big.Int{x}, st)
}

// checkTarget compares the honest outputs with the expected ones.
func checkTarget(r *rep.R, t *target) {
	e := ops.NewEngine(t.cfg)
	var outs []*big.Int
	fail := e.Run(func(api frontend.API) {
		in := make([]frontend.Variable, len(t.in))
		for i := range in {
			in[i] = e.Input(t.in[i])
		}
		for _, v := range t.body(api, in) {
			outs = append(outs, e.Big(v))
		}
	})
	r.Eval(1)
	bad := fail != nil || len(outs) != len(t.want)
	for k := 0; !bad && k < len(outs); k++ {
		bad = outs[k].Cmp(signedMod(t.want[k])) != 0
	}
	if !bad {
		return
	}
	err := realSolve(t.cfg, t.body, t.in, t.want)
	if err == nil {
		r.Broken("engine and real solver disagree: %v %s: got %v (%v)", t.cfg, t.desc, outs, fail)
		return
	}
	r.Violate("wrong/"+t.name, fmt.Sprintf("%v %s: got %v (%v), want %v; real solver on the expected outputs: %v", t.cfg, t.desc, outs, fail, t.want, trim(err)), map[string]any{"config": t.cfg.String(), "case": t.desc})
}

func intCase(r *rep.R, rng *rand.Rand, c gcfg, i int) {
	length := uint(1 + rng.Intn(70))
	if rng.Intn(3) == 0 && c.RS > 0 {
		length = c.RS * uint(1+rng.Intn(3))
	}
	a, b := edge(rng, length), new(big.Int)
	if rng.Intn(2) == 0 {
		a.Neg(a)
	}
	var name string
	var fn func(g *gadget.IntGadget, in []frontend.Variable) []frontend.Variable
	var want []*big.Int
	in := []*big.Int{signedMod(a)}
	bit := func(x bool) *big.Int {
		if x {
			return big.NewInt(1)
		}
		return new(big.Int)
	}
	k := rng.Intn(6)
	if k >= 2 {
		// second operand at a distance that fits
		b = new(big.Int).Set(a)
		a = new(big.Int).Add(edge(rng, 90), new(big.Int))
		if rng.Intn(2) == 0 {
			a.Neg(a)
		}
		b.Add(a, b)
		in = []*big.Int{signedMod(a), signedMod(b)}
	}
	switch k {
	case 0:
		name, want = "abs", []*big.Int{new(big.Int).Abs(a), bit(a.Sign() >= 0)}
		fn = func(g *gadget.IntGadget, in []frontend.Variable) []frontend.Variable {
			x, s := g.Abs(in[0], length)
			return []frontend.Variable{x, s}
		}
	case 1:
		name, want = "ispositive", []*big.Int{bit(a.Sign() >= 0)}
		fn = func(g *gadget.IntGadget, in []frontend.Variable) []frontend.Variable {
			return []frontend.Variable{g.IsPositive(in[0], length)}
		}
	case 2, 3:
		m := a
		name = "max"
		if a.Cmp(b) < 0 {
			m = b
		}
		if k == 3 {
			name = "min"
			if m == a {
				m = b
			} else {
				m = a
			}
		}
		want = []*big.Int{signedMod(m)}
		fn = func(g *gadget.IntGadget, in []frontend.Variable) []frontend.Variable {
			if k == 3 {
				return []frontend.Variable{g.Min(in[0], in[1], length)}
			}
			return []frontend.Variable{g.Max(in[0], in[1], length)}
		}
	case 4:
		if rng.Intn(2) == 0 {
			in[1] = in[0]
			b = a
		}
		name, want = "iseq", []*big.Int{bit(a.Cmp(b) == 0)}
		fn = func(g *gadget.IntGadget, in []frontend.Variable) []frontend.Variable {
			return []frontend.Variable{g.IsEq(in[0], in[1])}
		}
	default:
		// sign of a difference selects between its absolute value's square and the operands
		d := new(big.Int).Sub(b, a)
		name, want = "abs-diff", []*big.Int{new(big.Int).Abs(d), bit(d.Sign() >= 0)}
		fn = func(g *gadget.IntGadget, in []frontend.Variable) []frontend.Variable {
			x, s := g.Abs(in[2], length)
			return []frontend.Variable{x, s}
		}
	}
	body := func(api frontend.API, v []frontend.Variable) []frontend.Variable {
		g := gadget.New(api, c.RS, c.pow2)
		if len(v) == 2 {
			v = append(append([]frontend.Variable{}, v...), api.Sub(v[1], v[0]))
		}
		return fn(g, v)
	}
	desc := fmt.Sprintf("%v %s of %v,%v for %d bits", c, name, a, b, length)
	t := &target{name: name, desc: desc, cfg: c.Cfg, body: body, in: in, want: want, bits: int(length) + 10, pairs: rng.Intn(3) == 0, key: rep.Mix(rep.Str(desc))}
	t.defer_ = rng.Intn(6) == 0
	if i < 40 && i%9 == 5 {
		r.Sample(desc)
	}
	checkTarget(r, t)
	forge(r, t)
	if k < 2 || k == 5 {
		// too large for the length: no sign may be claimed
		limit := length + 17
		if c.RS > 0 {
			limit = decomp(length, c.RS) * c.RS
		}
		big1 := new(big.Int).Add(p2(limit), edge(rng, limit))
		big1.Add(big1, big.NewInt(1))
		if rng.Intn(2) == 0 {
			big1.Neg(big1)
		}
		st := limbStrategies(c.RS)
		for _, v := range []int64{0, 1} {
			v := v
			for _, s := range limbStrategies(c.RS) {
				s := s
				st = append(st, func(site int, deferred bool, in, out []*big.Int) {
					if !deferred && len(out) > 0 {
						out[0].SetInt64(v)
					}
					if s != nil {
						s(site, deferred, in, out)
					}
				})
			}
		}
		one := func(api frontend.API, v []frontend.Variable) []frontend.Variable {
			g := gadget.New(api, c.RS, c.pow2)
			return []frontend.Variable{g.IsPositive(v[0], length)}
		}
		forgeAny(r, c.Cfg, "sign-range", fmt.Sprintf("%v sign of %v for %d bits", c, big1, length), one, []*big.Int{signedMod(big1)}, st)
	}
}

// mixedCase uses several gadgets in one circuit, or just one kind of them, on the real builders.
func mixedCase(r *rep.R, rng *rand.Rand, c gcfg, i int) {
	if c.RS > 10 {
		c.RS = 8
	}
	nr, np, ns := rng.Intn(4), rng.Intn(4), rng.Intn(4)
	switch rng.Intn(5) {
	case 0:
		np, ns = 0, 0
	case 1:
		nr, ns = 0, 0
	case 2:
		nr, np = 0, 0
	}
	var bits []uint
	var modes []gadget.Mode
	var in, want []*big.Int
	for k := 0; k < nr; k++ {
		b := uint(1 + rng.Intn(60))
		bits = append(bits, b)
		modes = append(modes, []gadget.Mode{gadget.Loose, gadget.TightForSmallAbs, gadget.TightForUnknownRange}[rng.Intn(3)])
		in = append(in, edge(rng, b))
	}
	for k := 0; k < np; k++ {
		e := rng.Intn(int(c.pow2))
		in = append(in, big.NewInt(int64(e)))
		want = append(want, p2(uint(e)))
	}
	for k := 0; k < ns; k++ {
		v := edge(rng, 40)
		if rng.Intn(2) == 0 {
			v.Neg(v)
		}
		in = append(in, signedMod(v))
		want = append(want, new(big.Int).Abs(v))
	}
	in = append(in, big.NewInt(5))
	want = append(want, big.NewInt(25))
	body := func(api frontend.API, v []frontend.Variable) (out []frontend.Variable) {
		g := gadget.New(api, c.RS, c.pow2)
		for k := 0; k < nr; k++ {
			g.AssertBitLength(v[k], bits[k], modes[k])
		}
		for k := 0; k < np; k++ {
			out = append(out, g.QueryPowerOf2(v[nr+k]))
		}
		for k := 0; k < ns; k++ {
			x, _ := g.Abs(v[nr+np+k], 40)
			out = append(out, x)
		}
		return append(out, api.Mul(v[nr+np+ns], v[nr+np+ns]))
	}
	desc := fmt.Sprintf("%v circuit with %d range checks, %d powers of two, %d absolute values", c, nr, np, ns)
	t := &target{name: "mixed", desc: desc, cfg: c.Cfg, body: body, in: in, want: want}
	checkTarget(r, t)
	r.Count("gadget circuits on the real solver", 1)
	r.Distinct(rep.Mix(rep.Str(desc), rep.Str(fmt.Sprint(in))))
	if err := realSolve(c.Cfg, body, in, want); err != nil {
		r.Violate("mixed", fmt.Sprintf("%s: correct circuit rejected by the real solver: %v", desc, trim(err)), map[string]any{"case": desc, "inputs": fmt.Sprint(in)})
	}
	if len(want) > 1 {
		k := rng.Intn(len(want))
		bad := append([]*big.Int(nil), want...)
		bad[k] = new(big.Int).Add(bad[k], big.NewInt(1))
		if realSolve(c.Cfg, body, in, bad) == nil {
			r.Violate("mixed-accepts", fmt.Sprintf("%s: wrong output %d accepted by the real solver", desc, k), map[string]any{"case": desc, "inputs": fmt.Sprint(in)})
		}
	}
}

// crowdCase puts one wrong value among many right ones: no check may be lost
// in a large circuit.
func crowdCase(r *rep.R, rng *rand.Rand, c gcfg, i int) {
	if c.RS == 0 || c.RS > 10 {
		c.RS = 5 + uint(rng.Intn(5))
	}
	c.pow2 = c.F.Bits()
	n := int(math.Exp(math.Log(60) + rng.Float64()*math.Log(100)))
	type item struct {
		pow  bool
		bits uint
		mode gadget.Mode
	}
	share := []int{0, 1, 2, 9, 10}[rng.Intn(5)] // queries of powers, out of ten
	items := make([]item, n)
	in := make([]*big.Int, n)
	lone := int64(rng.Intn(int(c.pow2))) // an exponent reserved for the victim
	for k := range items {
		if rng.Intn(10) < share {
			items[k].pow = true
			e := int64(rng.Intn(int(c.pow2)))
			if e == lone {
				e = (e + 1) % int64(c.pow2)
			}
			in[k] = big.NewInt(e)
			continue
		}
		items[k] = item{bits: uint(1 + rng.Intn(60)), mode: gadget.Mode(rng.Intn(3))}
		in[k] = edge(rng, items[k].bits)
	}
	body := func(api frontend.API, v []frontend.Variable) (out []frontend.Variable) {
		g := gadget.New(api, c.RS, c.pow2)
		for k, it := range items {
			if it.pow {
				out = append(out, g.QueryPowerOf2(v[k]))
			} else {
				g.AssertBitLength(v[k], it.bits, it.mode)
			}
		}
		return append(out, v[0])
	}
	desc := fmt.Sprintf("%v %d checks and queries, %d0%% powers of two", c, n, share)
	e := ops.NewEngine(c.Cfg)
	fail := e.Run(func(api frontend.API) {
		w := make([]frontend.Variable, n)
		for k := range in {
			w[k] = e.Input(in[k])
		}
		body(api, w)
	})
	r.Eval(1)
	if fail != nil {
		r.Broken("%s: honest run rejected: %v", desc, fail)
		return
	}
	for _, k := range []int{0, n - 1, rng.Intn(n), rng.Intn(n), n - 1 - rng.Intn(n/8+1)} {
		bad := append([]*big.Int(nil), in...)
		it := items[k]
		var st []func(site int, deferred bool, in, out []*big.Int)
		what := ""
		if it.pow {
			bad[k] = big.NewInt(lone)
			wrong := p2(uint((lone + 1 + int64(rng.Intn(int(c.pow2)-1))) % int64(c.pow2)))
			st = append(st, func(site int, deferred bool, hin, out []*big.Int) {
				if !deferred && len(out) == 1 && hin[0].Cmp(bad[k]) == 0 {
					out[0].Set(wrong)
				}
			})
			what = fmt.Sprintf("number %d claims 2^%d = %v", k, lone, wrong)
		} else {
			bad[k] = p2(decomp(it.bits, c.RS) * c.RS)
			bad[k].Add(bad[k], edge(rng, 10))
			st = limbStrategies(c.RS)[:3]
			what = fmt.Sprintf("number %d is %v for %d bits (%s)", k, bad[k], it.bits, modeName[it.mode])
		}
		r.Count("values out of range among many checks", 1)
		r.Distinct(rep.Mix(rep.Str(desc), uint64(k)))
		forgeAny(r, c.Cfg, "crowd", desc+": "+what, body, bad, st)
	}
	r.Max("most checks and queries in one circuit", int64(n))
}

func init() { All["S06"] = gadgetCheck }
