package checks

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/consensys/gnark/frontend"

	"verif/harness/attack"
	"verif/harness/fp"
	"verif/harness/mon"
	"verif/harness/ops"
	"verif/harness/rep"
)

// target is a circuit body with concrete inputs to attack.
type target struct {
	name   string // names the operation: part of the signature
	desc   string
	cfg    ops.Cfg
	body   attack.Body
	in     []*big.Int
	want   []*big.Int // expected honest outputs, nil: not checked here
	equal  func(honest, got []*big.Int) bool
	bits   int
	pairs  bool
	defer_ bool
	tb     int
	thin   int
	phase  int
	every  int
	key    uint64
}

// Attack describes a circuit body to attack, for checks of other packages.
type Attack struct {
	Name, Desc  string
	Cfg         ops.Cfg
	Body        attack.Body
	In          []*big.Int
	Equal       func(honest, got []*big.Int) bool
	Every, Thin int
	Phase       int
	Pairs       bool
	Key         uint64
}

// Forge attacks one body and reports confirmed forgeries.
func Forge(r *rep.R, a *Attack) {
	forge(r, &target{name: a.Name, desc: a.Desc, cfg: a.Cfg, body: a.Body, in: a.In, equal: a.Equal, bits: 2*int(a.Cfg.F.M) + 8,
		pairs: a.Pairs, thin: a.Thin, phase: a.Phase, every: a.Every, key: a.Key})
}

// SoundCfg draws a configuration for attacks.
func SoundCfg(rng *rand.Rand, f fp.Fmt) ops.Cfg { return soundCfg(rng, f) }

// RngFor is the random source of job i of a check.
func RngFor(r *rep.R, what string, i int) *rand.Rand { return rngFor(r, what, i) }

// SoundAssume are the assumptions of attack checks.
var SoundAssume = soundAssume

// forge attacks one target and reports confirmed forgeries.
func forge(r *rep.R, t *target) {
	st := attack.NewStats()
	o := &attack.Opts{
		MakeEngine:   func() *mon.Engine { return ops.NewEngine(t.cfg) },
		MaxBits:      t.bits,
		TableBits:    []int{int(t.cfg.F.E + t.cfg.F.M + 1)},
		Pairs:        t.pairs,
		DeferredOnly: t.defer_,
		Equal:        t.equal,
		Thin:         t.thin, Phase: t.phase, Every: t.every,
		Max: 3,
	}
	if t.tb > 0 {
		o.TableBits = []int{t.tb}
	}
	fs, hf := attack.Run(t.body, t.in, o, st)
	r.Eval(st.Runs)
	if hf != nil {
		err := realSolve(t.cfg, t.body, t.in, t.want)
		if t.want == nil || err == nil {
			r.Broken("honest run of %s rejected by the engine: %v", t.desc, hf)
			return
		}
		r.Violate("honest/"+t.name, fmt.Sprintf("%v %s: honest prover rejected: %v; real solver: %v", t.cfg, t.desc, hf, trim(err)), map[string]any{"config": t.cfg.String(), "case": t.desc})
		return
	}
	r.Count("tampered executions", int64(st.Runs-1))
	r.Count("tampered executions rejected", int64(st.Rejected))
	r.Count("tampered executions accepted with the same result", int64(st.Benign))
	for k, v := range st.ByKind {
		r.Count("rejected by "+k, int64(v))
	}
	for k, v := range st.FnTampered {
		r.Count("tampered "+k, int64(v))
	}
	r.Count("hint call sites attacked", int64(st.SitesSeen))
	r.Count("other places of the code attacked briefly", int64(st.Places))
	if st.Runs > 1 {
		r.Distinct(t.key)
	}
	for _, f := range fs {
		cs, err := attack.Compile(attack.BN254(), t.cfg.FT, len(t.in), len(f.Forged), t.body)
		if err != nil {
			r.Broken("compile %s: %v", t.desc, err)
			return
		}
		w, err := attack.Witness(attack.BN254(), t.in, f.Forged)
		if err != nil {
			r.Broken("witness %s: %v", t.desc, err)
			return
		}
		if err := attack.Solve(cs, w, f); err != nil {
			// the override matches calls by their inputs, which can be ambiguous
			r.Count("forgeries not reproduced by the real solver", 1)
			continue
		}
		r.Violate("forged/"+t.name, fmt.Sprintf("%v %s: the real constraint system accepts a false result: %v", t.cfg, t.desc, f),
			map[string]any{"config": t.cfg.String(), "case": t.desc, "forgery": f.String()})
		return
	}
}

// soundCfg draws a configuration for attacks: small tables keep runs cheap,
// and widths around the divisors of the table width hit the corner cases.
func soundCfg(rng *rand.Rand, f fp.Fmt) ops.Cfg {
	c := ops.Cfg{F: f, FT: fts[rng.Intn(2)]}
	// weights: about the reciprocal of the table size
	w := rng.Intn(64)
	switch {
	case w < 16:
		c.RS = uint(2 + rng.Intn(3))
	case w < 48:
		c.RS = uint(5 + rng.Intn(2))
	case w < 58:
		c.RS = uint(7 + rng.Intn(2))
	case w < 61:
		c.RS = 0
	case w < 63:
		c.RS = uint(9 + rng.Intn(4))
	default:
		c.RS = uint(11 + rng.Intn(2))
	}
	return c
}

const soundRule = "one case is one operation, configuration and operand tuple; its honest execution is recorded, then re-executed with every hint output replaced by chosen wrong values (small offsets, powers of two and their inverses, negations, table aliases, slope-solved and pairwise compensated values), all later hints recomputed honestly; non-trivial when at least one tampered execution was observed"

var soundAssume = []string{
	"range and table lookups are decided by membership, i.e. the log-derivative argument of gnark is assumed sound",
	"the prover strategies tried are a finite list of single and compensated pairs of wrong hint values; a forgery needing three or more unrelated wrong values is out of reach",
	"each reported forgery was replayed and accepted by the real gnark solver",
}

// soundOps attacks floating point operations.
func soundOps(r *rep.R, opl []*ops.Op, gen func(g *fp.Gen, op *ops.Op) []uint64, nq, nt int) {
	r.Rule, r.Assume = soundRule, soundAssume
	n := r.N(nq, nt)
	fmts := []fp.Fmt{fp.F32, fp.F32, fp.F64, fp.E5M2, fp.E4M4}
	r.Parallel(n, func(i int) {
		rng := rngFor(r, "sound", i)
		f := fmts[i%len(fmts)]
		op := opl[(i/len(fmts))%len(opl)]
		g := fp.NewGen(int64(rep.Mix(uint64(r.Seed), rep.Str(r.ID), uint64(i))>>1), f)
		var in []uint64
		for {
			in = gen(g, op)
			if op.Domain == nil || op.Domain(f, in) {
				break
			}
		}
		cfg := soundCfg(rng, f)
		c := Case{Op: op, In: in}
		every, kind := 0, "single operations"
		switch rng.Intn(9) {
		case 8:
			// the same variable as both operands
			if op.Arity == 2 {
				c.Op, c.In, in = ops.Self(op), in[:1], in[:1]
				every, kind = 3, "operations on one variable"
			}
		case 0, 1:
			// the operation again, in the same circuit, on the same operands
			// the other way round
			c.Op = ops.Again(op)
			every, kind = 2, "repeated operations"
		case 2:
			// the operation on its own result
			if o := ops.Chain(op); o.Domain == nil || o.Domain(f, in) {
				c.Op = o
				every, kind = 2, "chained operations"
			}
		case 3:
			// an operand is a constant, or allocated by NewFloat
			kind = "constant or allocated operands"
			c.Modes = make([]ops.Mode, len(in))
			c.Modes[rng.Intn(len(in))] = ops.Alloc
			if len(in) > 1 {
				c.Modes[rng.Intn(len(in))] = ops.Const
			}
		}
		r.Count("targets attacked: "+kind, 1)
		want, _ := wantValues(f, c.Op.Ref(f, in))
		t := &target{name: c.Op.Name, desc: c.String(f), cfg: cfg, body: circuit(cfg, []Case{c}), in: circuitInputs(cfg, []Case{c}), want: want,
			equal: c.Op.NaNEqual(f, in), bits: 2*int(f.M) + 8, pairs: rng.Intn(4) == 0 && every == 0, every: every, key: rep.Mix(c.key(f), uint64(cfg.RS), uint64(cfg.FT))}
		if rng.Intn(8) == 0 {
			t.defer_ = true
			t.thin, t.phase = 5, i
		} else if rng.Intn(2) == 0 {
			t.thin, t.phase = 3, i
		}
		if i < 6 {
			r.Sample(cfg.String() + " " + t.desc)
		}
		forge(r, t)
	})
}

func pairGen(g *fp.Gen, op *ops.Op) []uint64 {
	x, y := g.Pair()
	return []uint64{x, y}
}

func init() {
	All["S02"] = func(r *rep.R) { soundOps(r, []*ops.Op{ops.Add, ops.Sub}, pairGen, 330, 60000) }
	All["S03"] = func(r *rep.R) { soundOps(r, []*ops.Op{ops.Mul, ops.Div}, pairGen, 450, 60000) }
	All["S04"] = func(r *rep.R) {
		soundOps(r, []*ops.Op{ops.Lt, ops.Le, ops.Gt, ops.Ge, ops.Select, ops.Min2}, pairGen, 1400, 150000)
	}
	All["S05"] = func(r *rep.R) {
		soundOps(r, []*ops.Op{ops.Trunc, ops.Floor, ops.Ceil, ops.TruncInt, ops.FloorInt, ops.CeilInt},
			func(g *fp.Gen, op *ops.Op) []uint64 { return []uint64{g.Roundish()} }, 800, 120000)
	}
	All["S08"] = func(r *rep.R) {
		soundOps(r, []*ops.Op{ops.Sqrt}, func(g *fp.Gen, op *ops.Op) []uint64 { return []uint64{g.Square()} }, 500, 60000)
	}
	All["S01"] = allocSound
}

// allocSound: NewFloat yields exactly the decoded components of a valid
// encoding, and no execution at all for anything else.
func allocSound(r *rep.R) {
	r.Rule, r.Assume = soundRule+"; for field elements that encode nothing, every split into sign, exponent and mantissa hints that keeps the mantissa in range is tried", soundAssume
	fmts := []fp.Fmt{fp.F32, fp.F64, fp.E5M2, fp.E4M4, fp.BF16}
	n := r.N(900, 60000)
	r.Parallel(n, func(i int) {
		rng := rngFor(r, "alloc", i)
		f := fmts[i%len(fmts)]
		g := fp.NewGen(int64(rep.Mix(uint64(r.Seed), rep.Str(r.ID), uint64(i))>>1), f)
		cfg := soundCfg(rng, f)
		body := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			ctx := ops.Context(api, cfg)
			return ops.Flatten([]any{ctx.NewFloat(in[0])})
		}
		if i%3 == 0 {
			forgeInvalid(r, rng, cfg, body, i)
			return
		}
		b := g.Any()
		c := f.Decode(b)
		w := c.Big()
		t := &target{name: "alloc", desc: fmt.Sprintf("alloc(%#x=%v)", b, f.Val(b)), cfg: cfg, body: body,
			in: []*big.Int{new(big.Int).SetUint64(b)}, want: w[:], bits: 2*int(f.M) + 8, pairs: true,
			key: rep.Mix(b, uint64(f.M), uint64(cfg.RS), uint64(cfg.FT))}
		if rng.Intn(6) == 0 {
			t.defer_ = true
		}
		if i < 6 {
			r.Sample(cfg.String() + " " + t.desc)
		}
		// the sign of NaN is part of the encoding here, hence exact equality
		forge(r, t)
	})
}

// forgeInvalid tries to allocate a field element that is not an encoding.
func forgeInvalid(r *rep.R, rng *rand.Rand, cfg ops.Cfg, body attack.Body, i int) {
	f := cfg.F
	one := big.NewInt(1)
	pow := func(k uint) *big.Int { return new(big.Int).Lsh(one, k) }
	B := f.Bits()
	var v *big.Int
	switch rng.Intn(7) {
	case 0:
		v = pow(B)
	case 1:
		v = new(big.Int).Add(pow(B), new(big.Int).SetUint64(rng.Uint64()>>(64-B)))
	case 2:
		v = new(big.Int).Sub(mon.Modulus, new(big.Int).SetUint64(1+rng.Uint64()>>(64-uint(rng.Intn(int(B)))-1)))
	case 3:
		v = pow(B + uint(rng.Intn(int(253-B))))
	case 4:
		v = new(big.Int).Rand(rng, mon.Modulus)
	case 5:
		v = new(big.Int).Mul(new(big.Int).SetUint64(rng.Uint64()>>(64-B)|1), new(big.Int).ModInverse(pow(1+uint(rng.Intn(60))), mon.Modulus))
		v.Mod(v, mon.Modulus)
	default:
		v = new(big.Int).Add(pow(B), new(big.Int).SetUint64(uint64(rng.Intn(4))))
	}
	if v.Cmp(pow(B)) < 0 {
		v.Add(v, pow(B))
	}
	if rng.Intn(4) == 0 {
		// the same value as a constant of the circuit
		r.Count("allocations of constants that are no encodings", 1)
		body = func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			ctx := ops.Context(api, cfg)
			api.AssertIsEqual(in[0], v)
			return ops.Flatten([]any{ctx.NewFloat(new(big.Int).Set(v))})
		}
	}
	// splits v = s 2^(E+M) + e 2^M + m
	type split struct{ s, e *big.Int }
	var sp []split
	top := func(x *big.Int, k uint) *big.Int { return new(big.Int).Rsh(x, k) }
	for _, s := range []*big.Int{big.NewInt(0), one, big.NewInt(2), big.NewInt(-1), top(v, f.E+f.M)} {
		rest := new(big.Int).Sub(v, new(big.Int).Mul(s, pow(f.E+f.M)))
		rest.Mod(rest, mon.Modulus)
		sp = append(sp, split{s, top(rest, f.M)}, split{s, new(big.Int).And(top(rest, f.M), new(big.Int).Sub(pow(f.E), one))},
			split{s, big.NewInt(0)}, split{s, new(big.Int).Sub(pow(f.E), one)})
		// negative numbers: e = -1 borrows
		neg := new(big.Int).Sub(rest, mon.Modulus)
		sp = append(sp, split{s, top(neg, f.M)})
	}
	if !cfgSplits(r, cfg, body, v, func(yield func(s, e *big.Int) bool) {
		for _, x := range sp {
			if !yield(x.s, x.e) {
				return
			}
		}
	}) {
		return
	}
	r.Distinct(rep.Mix(v.Uint64(), rep.Str(v.String()), uint64(f.M), uint64(cfg.RS)))
	if i < 12 {
		r.Sample(cfg.String() + " alloc of the non-encoding " + v.String())
	}
}

func cfgSplits(r *rep.R, cfg ops.Cfg, body attack.Body, v *big.Int, each func(func(s, e *big.Int) bool)) bool {
	ok := true
	each(func(s, e *big.Int) bool {
		if !ok {
			return false
		}
		eng := ops.NewEngine(cfg)
		eng.Record = true
		eng.Tamper = func(_ *mon.Engine, site int, fn string, in, out []*big.Int) {
			if site == 0 && len(out) == 2 {
				out[0].Mod(s, mon.Modulus)
				out[1].Mod(e, mon.Modulus)
			}
		}
		var outs []*big.Int
		fail := eng.Run(func(api frontend.API) {
			for _, x := range body(api, []frontend.Variable{eng.Input(v)}) {
				outs = append(outs, eng.Big(x))
			}
		})
		r.Eval(1)
		if fail != nil {
			r.Count("allocations of non-encodings rejected", 1)
			return true
		}
		fg := &attack.Forgery{Kind: "invalid", Forged: outs}
		for _, st := range eng.Sites {
			for i := range st.Honest {
				if st.Honest[i].Cmp(st.Used[i]) != 0 {
					fg.Calls = append(fg.Calls, st)
					break
				}
			}
		}
		cs, err := attack.Compile(attack.BN254(), cfg.FT, 1, len(outs), body)
		if err != nil {
			r.Broken("compile: %v", err)
			return false
		}
		w, err := attack.Witness(attack.BN254(), []*big.Int{v}, outs)
		if err != nil {
			r.Broken("witness: %v", err)
			return false
		}
		if err := attack.Solve(cs, w, fg); err != nil {
			r.Count("forgeries not reproduced by the real solver", 1)
			return true
		}
		ok = false
		r.Violate("invalid/"+cfg.F.Name, fmt.Sprintf("%v: the real constraint system allocates %v, which encodes nothing, as %v", cfg, v, outs), map[string]any{"config": cfg.String(), "value": v.String(), "components": fmt.Sprint(outs)})
		return false
	})
	return ok
}
