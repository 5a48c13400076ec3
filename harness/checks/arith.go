package checks

import (
	"fmt"
	"math/big"
	"math/rand"

	"verif/harness/attack"
	"verif/harness/fp"
	"verif/harness/ops"
	"verif/harness/rep"
)

const batch = 160

// stream turns a list of cases into batches over rotating configurations.
type stream struct {
	r    *rep.R
	f    fp.Fmt
	what string
	buf  []Case
	jobs []func()
	n    int
	cfgs func(rng *rand.Rand, f fp.Fmt) ops.Cfg
	// realEvery: every n-th batch also goes through the real solver (0: none)
	realEvery int
}

func (s *stream) add(c Case) {
	if c.Op.Domain != nil && !c.Op.Domain(s.f, c.In) {
		return
	}
	s.buf = append(s.buf, c)
	if len(s.buf) == batch {
		s.flush()
	}
}

func (s *stream) flush() {
	if len(s.buf) == 0 {
		return
	}
	cs := s.buf
	s.buf = nil
	i := s.n
	s.n++
	pick := s.cfgs
	if pick == nil {
		pick = pickCfg
	}
	s.jobs = append(s.jobs, func() {
		rng := rngFor(s.r, s.what+s.f.Name, i)
		cfg := pick(rng, s.f)
		if s.realEvery > 0 && i%s.realEvery == 0 {
			if len(cs) > 40 {
				cs = cs[:40]
			}
			checkReal(s.r, cfg, cs, rng, 3)
			return
		}
		checkCases(s.r, cfg, cs)
	})
}

// probeConst crosses constant operands of every class with wires of every
// class, all through the real builders.
func probeConst(r *rep.R, opl []*ops.Op) {
	var jobs []func()
	for _, f := range hwFmts {
		vals := []uint64{f.Of(1.5), f.Of(-3), f.Of(0), f.Neg(0), f.Inf(0), f.Inf(1), f.NaN(), 1}
		for _, ft := range fts {
			for k, op := range opl {
				cfg := ops.Cfg{F: f, RS: 8, FT: ft}
				var cs []Case
				add := func(c Case) {
					if op.Domain == nil || op.Domain(f, c.In) {
						cs = append(cs, c)
					}
				}
				for _, a := range vals {
					if op.Arity == 1 {
						add(Case{op, []uint64{a}, []ops.Mode{ops.Const}})
						add(Case{op, []uint64{a}, []ops.Mode{ops.AllocConst}})
						continue
					}
					for _, b := range vals {
						add(Case{op, []uint64{a, b}, []ops.Mode{ops.Const, ops.Wire}})
						add(Case{op, []uint64{a, b}, []ops.Mode{ops.Wire, ops.Const}})
						if (len(cs)/2)%7 == 0 {
							add(Case{op, []uint64{a, b}, []ops.Mode{ops.AllocConst, ops.Const}})
						}
					}
				}
				k := k
				jobs = append(jobs, func() {
					r.Count("constant operand probes", int64(len(cs)))
					checkReal(r, cfg, cs, rngFor(r, "const"+cfg.String(), k), 2)
				})
			}
		}
	}
	r.Parallel(len(jobs), func(i int) { jobs[i]() })
}

// small formats are enumerated with a fixed narrow table.
func smallCfg(rng *rand.Rand, f fp.Fmt) ops.Cfg {
	return ops.Cfg{F: f, RS: uint(3 + rng.Intn(6)), FT: fts[rng.Intn(2)]}
}

func runStreams(r *rep.R, ss ...*stream) {
	var jobs []func()
	for _, s := range ss {
		s.flush()
		jobs = append(jobs, s.jobs...)
	}
	// interleave, so that a slow configuration does not end up last
	rand.New(rand.NewSource(r.Seed)).Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	r.Parallel(len(jobs), func(i int) { jobs[i]() })
}

// modesFor draws how operands reach the circuit.
func modesFor(rng *rand.Rand, n int) []ops.Mode {
	m := make([]ops.Mode, n)
	switch rng.Intn(8) {
	case 0:
		m[rng.Intn(n)] = ops.Const
	case 1:
		m[rng.Intn(n)] = ops.Alloc
	case 2:
		for i := range m {
			m[i] = ops.Alloc
		}
	}
	return m
}

var hwFmts = []fp.Fmt{fp.F32, fp.F64}

// oddFmts are no hardware's, but their exponents are wide enough for their
// mantissas: an odd exponent of the smallest number, even and odd precisions,
// mantissas longer and shorter than the exponent.
var oddFmts = []fp.Fmt{{"e6m9", 6, 9}, {"e7m16", 7, 16}, {"e8m2", 8, 2}, {"e9m20", 9, 20}, {"e10m5", 10, 5}, {"e11m15", 11, 15}}

// enumerate all operands of a small format.
func enumerate(s *stream, op *ops.Op) {
	n := uint64(1) << s.f.Bits()
	for x := uint64(0); x < n; x++ {
		if op.Arity == 1 {
			s.add(Case{Op: op, In: []uint64{x}})
			continue
		}
		for y := uint64(0); y < n; y++ {
			s.add(Case{Op: op, In: []uint64{x, y}})
		}
	}
}

// randomBinary adds structured random pairs.
func randomBinary(r *rep.R, s *stream, opl []*ops.Op, n int) {
	g := fp.NewGen(int64(rep.Mix(uint64(r.Seed), rep.Str(s.what+s.f.Name))>>1), s.f)
	for i := 0; i < n; i++ {
		op := opl[g.Intn(len(opl))]
		x, y := g.Pair()
		s.add(Case{Op: op, In: []uint64{x, y}, Modes: modesFor(g.Rand, 2)})
	}
}

func randomUnary(r *rep.R, s *stream, opl []*ops.Op, n int, gen func(g *fp.Gen) uint64) {
	g := fp.NewGen(int64(rep.Mix(uint64(r.Seed), rep.Str(s.what+s.f.Name))>>1), s.f)
	for i := 0; i < n; i++ {
		op := opl[g.Intn(len(opl))]
		s.add(Case{Op: op, In: []uint64{gen(g)}, Modes: modesFor(g.Rand, 1)})
	}
}

// sweepAdd crosses every exponent difference that matters with mantissa patterns and signs.
func sweepAdd(r *rep.R, s *stream, op *ops.Op, thin int) {
	f := s.f
	pats := f.Patterns()
	M := int64(f.M)
	rng := rand.New(rand.NewSource(r.Seed))
	max := int64(1)<<f.E - 2
	k := 0
	for _, ex := range []int64{0, 1, M / 2, M + 2, max / 2, max - 1, max} {
		for d := int64(0); d <= M+6; d++ {
			if ex-d < 0 && d > 3 {
				continue
			}
			for _, mx := range pats {
				for _, my := range pats {
					k++
					if k%thin != int(r.Seed)%thin {
						continue
					}
					ey := ex - d
					if ey < 0 {
						ey = 0
					}
					x := f.Pack(uint64(rng.Intn(2)), uint64(ex), mx)
					y := f.Pack(uint64(rng.Intn(2)), uint64(ey), my)
					if rng.Intn(2) == 0 {
						x, y = y, x
					}
					s.add(Case{Op: op, In: []uint64{x, y}})
				}
			}
		}
	}
}

// sweepProduct crosses result exponents around the limits with mantissa patterns.
func sweepProduct(r *rep.R, s *stream, op *ops.Op, div bool, thin int) {
	f := s.f
	pats := f.Patterns()
	M := int64(f.M)
	rng := rand.New(rand.NewSource(r.Seed))
	max := int64(1)<<f.E - 2
	bias := max / 2
	k := 0
	var targets []int64
	for d := -M - 5; d <= 3; d++ {
		targets = append(targets, 1-bias+d)
	}
	targets = append(targets, -1, 0, 1, bias-1, bias, bias+1, bias+2)
	for _, t := range targets {
		for _, mx := range pats {
			for _, my := range pats {
				k++
				if k%thin != int(r.Seed)%thin {
					continue
				}
				// ex and ey (unbiased) with ex+ey == t (or ex-ey == t)
				lo, hi := 1-bias, bias
				ex := lo + rng.Int63n(hi-lo+1)
				ey := t - ex
				if div {
					ey = ex - t
				}
				if ey < lo || ey > hi {
					ex = t / 2
					ey = t - ex
					if div {
						ey = ex - t
					}
				}
				if ey < lo {
					ey = lo
				}
				if ey > hi {
					ey = hi
				}
				x := f.Pack(uint64(rng.Intn(2)), uint64(ex+bias), mx)
				y := f.Pack(uint64(rng.Intn(2)), uint64(ey+bias), my)
				// subnormal operands too
				switch rng.Intn(12) {
				case 0:
					x = f.Pack(uint64(rng.Intn(2)), 0, mx|1)
				case 1:
					y = f.Pack(uint64(rng.Intn(2)), 0, my|1)
				}
				s.add(Case{Op: op, In: []uint64{x, y}})
			}
		}
	}
}

const arithRule = "operands: exhaustive over the 8- and 9-bit formats E4M3/E5M2/E4M4, systematic cross of exponent relations with mantissa patterns, and structured random pairs for binary32/binary64, over range table widths, R1CS and SCS, wire/constant/allocated operands, and one variable as both operands; a case is non-trivial when the circuit's outputs were observed and compared with the reference"

func arithmetic(r *rep.R, opl []*ops.Op, sweep func(s *stream, thin int), nq, nt int) {
	r.Rule = arithRule
	r.Assume = []string{"the hardware's binary32/binary64 arithmetic is the IEEE-754 reference", "gnark's log-derivative lookup argument is sound and complete (it is run for real on the batches that go through the real solver)"}
	var ss []*stream
	for _, f := range hwFmts {
		s := &stream{r: r, f: f, what: "rnd", realEvery: 10}
		randomBinary(r, s, opl, r.N(nq, nt))
		ss = append(ss, s)
		w := &stream{r: r, f: f, what: "sweep", realEvery: 25}
		sweep(w, r.N(6, 1))
		ss = append(ss, w)
		// the same variable as both operands
		a := &stream{r: r, f: f, what: "self", realEvery: 12}
		var self []*ops.Op
		for _, op := range opl {
			self = append(self, ops.Self(op))
		}
		randomUnary(r, a, self, r.N(nq/60, nt/60), func(g *fp.Gen) uint64 {
			if g.Intn(3) == 0 {
				return g.Special()
			}
			return g.Any()
		})
		ss = append(ss, a)
	}
	for _, f := range []fp.Fmt{fp.E4M3, fp.E5M2} {
		s := &stream{r: r, f: f, what: "all", cfgs: smallCfg, realEvery: 50}
		for _, op := range opl {
			enumerate(s, op)
		}
		ss = append(ss, s)
	}
	mid := []fp.Fmt{fp.F16, fp.BF16}
	if opl[0] == ops.Mul || opl[0] == ops.Div {
		// binary16's exponents are too narrow for its mantissa here: the
		// product of two subnormals leaves the E+1-bit range of exponents
		mid = mid[1:]
	}
	for _, f := range mid {
		s := &stream{r: r, f: f, what: "rnd", cfgs: smallCfg, realEvery: 20}
		randomBinary(r, s, opl, r.N(nq/6, nt/2))
		ss = append(ss, s)
	}
	for _, f := range oddFmts {
		s := &stream{r: r, f: f, what: "odd", realEvery: 20}
		randomBinary(r, s, opl, r.N(nq/40, nt/20))
		ss = append(ss, s)
	}
	if r.Thorough() {
		s := &stream{r: r, f: fp.E4M4, what: "all", cfgs: smallCfg, realEvery: 50}
		for _, op := range opl {
			enumerate(s, op)
		}
		ss = append(ss, s)
	}
	for _, f := range hwFmts {
		g := fp.NewGen(r.Seed, f)
		x, y := g.Pair()
		for _, op := range opl {
			in := []uint64{x, y}[:op.Arity]
			r.Sample(Case{Op: op, In: in}.String(f) + " -> " + refString(f, op, in))
		}
	}
	runStreams(r, ss...)
	probeConst(r, opl)
}

func refString(f fp.Fmt, op *ops.Op, in []uint64) string {
	s := ""
	for _, o := range op.Ref(f, in) {
		if o.IsNum {
			s += f.Decode(o.Bits).String()
		} else {
			s += o.Int.String()
		}
	}
	return s
}

func init() {
	All["C01"] = func(r *rep.R) {
		arithmetic(r, []*ops.Op{ops.Add, ops.Sub}, func(s *stream, thin int) {
			sweepAdd(r, s, ops.Add, thin)
			sweepAdd(r, s, ops.Sub, thin*4)
		}, 120000, 3000000)
	}
	All["C02"] = func(r *rep.R) {
		arithmetic(r, []*ops.Op{ops.Mul}, func(s *stream, thin int) { sweepProduct(r, s, ops.Mul, false, thin) }, 120000, 3000000)
	}
	All["C03"] = func(r *rep.R) {
		arithmetic(r, []*ops.Op{ops.Div}, func(s *stream, thin int) { sweepProduct(r, s, ops.Div, true, thin) }, 120000, 3000000)
	}
	All["C04"] = sqrtCheck
	All["C05"] = compareCheck
	All["C06"] = roundCheck
	All["C08"] = toIntCheck
}

func unaryCheck(r *rep.R, opl []*ops.Op, gen func(g *fp.Gen) uint64, nq, nt int) {
	r.Rule = "operands: all encodings of binary16 and bfloat16, every exponent of binary32/binary64 with boundary mantissas, and structured random ones, over range table widths, R1CS and SCS, wire/constant/allocated operands; a case is non-trivial when the circuit's outputs were observed and compared with the reference"
	r.Assume = []string{"the hardware's binary32/binary64 arithmetic is the IEEE-754 reference", "gnark's log-derivative lookup argument is sound and complete (it is run for real on the batches that go through the real solver)"}
	var ss []*stream
	for _, f := range hwFmts {
		s := &stream{r: r, f: f, what: "rnd", realEvery: 10}
		randomUnary(r, s, opl, r.N(nq, nt), gen)
		w := &stream{r: r, f: f, what: "near", realEvery: 20}
		for _, op := range opl {
			op := op
			f.Near(func(b uint64) { w.add(Case{Op: op, In: []uint64{b}}) })
		}
		ss = append(ss, s, w)
	}
	small := []fp.Fmt{fp.F16, fp.E4M3, fp.E5M2}
	if r.Thorough() {
		small = append(small, fp.BF16)
	}
	for _, f := range small {
		s := &stream{r: r, f: f, what: "all", cfgs: smallCfg, realEvery: 50}
		for _, op := range opl {
			enumerate(s, op)
		}
		ss = append(ss, s)
	}
	for _, f := range oddFmts {
		s := &stream{r: r, f: f, what: "odd", realEvery: 20}
		randomUnary(r, s, opl, r.N(nq/40, nt/20), gen)
		ss = append(ss, s)
	}
	for _, f := range hwFmts {
		g := fp.NewGen(r.Seed, f)
		for _, op := range opl {
			for k := 0; k < 2; k++ {
				in := []uint64{gen(g)}
				if op.Domain == nil || op.Domain(f, in) {
					r.Sample(Case{Op: op, In: in}.String(f) + " -> " + refString(f, op, in))
				}
			}
		}
	}
	runStreams(r, ss...)
	probeConst(r, opl)
}

func sqrtCheck(r *rep.R) {
	unaryCheck(r, []*ops.Op{ops.Sqrt}, (*fp.Gen).Square, 120000, 3000000)
}

func roundCheck(r *rep.R) {
	unaryCheck(r, []*ops.Op{ops.Trunc, ops.Floor, ops.Ceil}, (*fp.Gen).Roundish, 120000, 3000000)
}

func toIntCheck(r *rep.R) {
	toIntOutside(r)
	unaryCheck(r, []*ops.Op{ops.TruncInt, ops.FloorInt, ops.CeilInt}, (*fp.Gen).Roundish, 100000, 2000000)
}

// toIntOutside watches conversions of values that are no integers of the
// range covered: NaN, infinities and values that are too large. They have to
// be refused, or (for a finite value) give the exact integer.
func toIntOutside(r *rep.R) {
	fmts := []fp.Fmt{fp.F32, fp.F64, fp.BF16, fp.F16}
	r.Parallel(len(fmts), func(k int) {
		f := fmts[k]
		rng := rngFor(r, "outside", k)
		g := fp.NewGen(r.Seed, f)
		bias := f.EMax() - 1
		real := 0
		for i := 0; i < r.N(1500, 60000) && !r.Failed(); i++ {
			x := f.NaN()
			switch {
			case i%8 == 0:
				x = f.Pack(uint64(rng.Intn(2)), uint64(bias+f.EMax()), 1+g.Man()>>1)
			case i%8 == 1:
				x = f.Inf(uint64(rng.Intn(2)))
			default:
				lo := int64(f.Bits())
				if lo >= f.EMax() {
					continue
				}
				e := lo + rng.Int63n(f.EMax()-lo)
				if i%8 < 4 {
					e = lo + rng.Int63n(4)
				}
				if e >= f.EMax() {
					continue
				}
				x = f.Pack(uint64(rng.Intn(2)), uint64(e+bias), g.Man())
			}
			cfg := pickCfg(rng, f)
			c := Case{Op: []*ops.Op{ops.TruncInt, ops.FloorInt, ops.CeilInt}[rng.Intn(3)], In: []uint64{x}}
			if rng.Intn(4) == 0 {
				c.Modes = []ops.Mode{ops.Alloc}
			}
			outs, fail, _ := runCases(cfg, []Case{c})
			r.Eval(1)
			r.Distinct(rep.Mix(c.key(f), 77))
			if fail != nil || len(outs) == 0 || outs[0] == nil {
				r.Count("conversions outside the range refused", 1)
				continue
			}
			got := outs[0][0]
			if !f.IsAbn(x) {
				want, _ := new(big.Float).SetFloat64(f.Val(x)).Int(nil)
				want.Mod(want, attack.BN254())
				if got.Cmp(want) == 0 {
					continue
				}
			}
			if real++; real > 3 {
				continue
			}
			if err := realSolve(cfg, circuit(cfg, []Case{c}), circuitInputs(cfg, []Case{c}), []*big.Int{got}); err != nil {
				r.Broken("%s: engine accepts %v, gnark refuses: %v", c.String(f), got, err)
				return
			}
			r.Violate("outside/"+c.Op.Name, fmt.Sprintf("%s (%v, table width %d) is converted to the integer %v", c.String(f), f.Val(x), cfg.RS, got),
				map[string]any{"operand": fmt.Sprintf("%#x", x), "E": f.E, "M": f.M, "table width": cfg.RS, "integer": got.String()})
		}
	})
}

func compareCheck(r *rep.R) {
	arithmetic(r, []*ops.Op{ops.Lt, ops.Le, ops.Gt, ops.Ge, ops.Select, ops.Min2}, func(s *stream, thin int) {
		sweepAdd(r, s, ops.Lt, thin*6)
		sweepAdd(r, s, ops.Le, thin*6)
		sweepAdd(r, s, ops.Gt, thin*12)
		sweepAdd(r, s, ops.Ge, thin*12)
	}, 160000, 3000000)
}
