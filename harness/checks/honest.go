package checks

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/frontendtype"
	"github.com/tumberger/zk-Location/float"

	"verif/harness/attack"
	"verif/harness/fp"
	"verif/harness/mon"
	"verif/harness/ops"
	"verif/harness/rep"
)

// Case is one operation on concrete operands.
type Case struct {
	Op    *ops.Op
	In    []uint64
	Modes []ops.Mode
}

func (c Case) String(f fp.Fmt) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s(", c.Op.Name)
	for i, b := range c.In {
		if i > 0 {
			sb.WriteString(", ")
		}
		fmt.Fprintf(&sb, "%#x=%v", b, f.Val(b))
		if m := c.mode(i); m != ops.Wire {
			sb.WriteString([]string{"", " const", " alloc", " alloc const"}[m])
		}
	}
	sb.WriteString(")")
	return sb.String()
}

func (c Case) mode(i int) ops.Mode {
	if i < len(c.Modes) {
		return c.Modes[i]
	}
	return ops.Wire
}

func (c Case) key(f fp.Fmt) uint64 {
	k := rep.Mix(rep.Str(c.Op.Name), uint64(f.M))
	for _, b := range c.In {
		k = rep.Mix(k, b)
	}
	return k
}

// runCases runs cases in one circuit on the monitoring engine. outs[i] is nil
// for cases not reached.
func runCases(cfg ops.Cfg, cases []Case) (outs [][]*big.Int, fail *mon.Failure, e *mon.Engine) {
	e = ops.NewEngine(cfg)
	outs = make([][]*big.Int, len(cases))
	fail = e.Run(func(api frontend.API) {
		ctx := ops.Context(api, cfg)
		for k, c := range cases {
			in := make([]float.FloatVar, len(c.In))
			for i, b := range c.In {
				in[i] = ops.Input(e, ctx, cfg.F, b, c.mode(i))
			}
			outs[k] = ops.Values(e, ops.Flatten(c.Op.Run(ctx, in)))
		}
	})
	return
}

// circuit is the cases as a circuit over the components of their wire
// operands (and the encodings of their allocated ones).
func circuit(cfg ops.Cfg, cases []Case) attack.Body {
	return func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		ctx := ops.Context(api, cfg)
		var out []frontend.Variable
		p := 0
		for _, c := range cases {
			a := make([]float.FloatVar, len(c.In))
			for i := range a {
				switch c.mode(i) {
				case ops.Const:
					a[i] = ctx.NewConstant(c.In[i])
				case ops.Alloc:
					a[i] = ctx.NewFloat(in[p])
					p++
				case ops.AllocConst:
					a[i] = ctx.NewFloat(new(big.Int).SetUint64(c.In[i]))
				default:
					a[i] = ops.Float(api, in[p:p+4])
					p += 4
				}
			}
			out = append(out, ops.Flatten(c.Op.Run(ctx, a))...)
		}
		return out
	}
}

func circuitInputs(cfg ops.Cfg, cases []Case) []*big.Int {
	var r []*big.Int
	for _, c := range cases {
		for i, b := range c.In {
			switch c.mode(i) {
			case ops.Const, ops.AllocConst:
			case ops.Alloc:
				r = append(r, new(big.Int).SetUint64(b))
			default:
				v := cfg.F.Decode(b).Big()
				r = append(r, v[:]...)
			}
		}
	}
	return r
}

// realSolve compiles the body with gnark's own builder and solves it.
func realSolve(cfg ops.Cfg, body attack.Body, in, out []*big.Int) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	cs, err := attack.Compile(attack.BN254(), cfg.FT, len(in), len(out), body)
	if err != nil {
		return fmt.Errorf("compile: %w", err)
	}
	w, err := attack.Witness(attack.BN254(), in, out)
	if err != nil {
		return err
	}
	return attack.Solve(cs, w, nil)
}

// wantValues lists the component values of expected outputs, with sign
// variants for NaN.
func wantValues(f fp.Fmt, want []ops.Out) (v []*big.Int, nan []int) {
	for _, w := range want {
		if !w.IsNum {
			v = append(v, w.Int)
			continue
		}
		c := f.Decode(w.Bits)
		if c.IsNaN() {
			nan = append(nan, len(v))
		}
		b := c.Big()
		v = append(v, b[:]...)
	}
	return
}

// confirmHonest decides on the real constraint system whether the expected
// outputs are provable. It returns nil if they are.
func confirmHonest(cfg ops.Cfg, c Case) error {
	want, nan := wantValues(cfg.F, c.Op.Ref(cfg.F, c.In))
	var err error
	for v := 0; v < 1<<len(nan); v++ {
		w := append([]*big.Int(nil), want...)
		for i, p := range nan {
			w[p] = big.NewInt(int64(v >> i & 1))
		}
		if err = realSolve(cfg, circuit(cfg, []Case{c}), circuitInputs(cfg, []Case{c}), w); err == nil {
			return nil
		}
	}
	return err
}

// checkCases runs a batch and reports every case whose outputs differ from
// the reference.
func checkCases(r *rep.R, cfg ops.Cfg, cases []Case) (outs [][]*big.Int, ok bool) {
	outs, fail, e := runCases(cfg, cases)
	r.Eval(len(cases))
	r.Count("hint calls monitored", int64(e.NSites))
	r.Count("assertions monitored", int64(e.NAssert))
	r.Count("range lookups monitored", int64(e.NRange))
	if fail != nil && len(cases) > 1 {
		// find the cases to blame
		bad := 0
		for _, c := range cases {
			if _, k := checkCases(r, cfg, []Case{c}); !k {
				bad++
			}
			if bad >= 2 {
				break
			}
		}
		if bad == 0 {
			// only the combination fails: decide it on the real system
			reportBatch(r, cfg, cases, outs, fail)
		}
		return nil, false
	}
	ok = true
	for i, c := range cases {
		var err error
		if fail != nil {
			err = fmt.Errorf("honest prover rejected: %v", fail)
		} else {
			err = ops.Match(cfg.F, c.Op.Ref(cfg.F, c.In), outs[i])
		}
		if err == nil {
			r.Distinct(c.key(cfg.F))
			continue
		}
		ok = false
		cerr := confirmHonest(cfg, c)
		if cerr == nil && len(cases) > 1 {
			// the outputs may depend on the other operations of the circuit
			reportBatch(r, cfg, cases, outs, nil)
			continue
		}
		if cerr == nil {
			r.Broken("engine and real solver disagree: %v %s: %v", cfg, c.String(cfg.F), err)
			continue
		}
		r.Violate(fmt.Sprintf("%s/%s/%x", c.Op.Name, cfg.F.Name, c.In), fmt.Sprintf("%v %s: %v; real solver on the expected outputs: %v", cfg, c.String(cfg.F), err, trim(cerr)),
			map[string]any{"config": cfg.String(), "case": c.String(cfg.F), "operands": fmt.Sprintf("%x", c.In), "observed": err.Error(), "solver": trim(cerr)})
		if r.Failed() {
			return nil, false
		}
	}
	return outs, ok
}

func reportBatch(r *rep.R, cfg ops.Cfg, cases []Case, outs [][]*big.Int, fail *mon.Failure) {
	var want []*big.Int
	for _, c := range cases {
		w, _ := wantValues(cfg.F, c.Op.Ref(cfg.F, c.In))
		want = append(want, w...)
	}
	err := realSolve(cfg, circuit(cfg, cases), circuitInputs(cfg, cases), want)
	if err == nil {
		r.Broken("engine and real solver disagree on a batch: %v: %v", cfg, fail)
		return
	}
	var l []string
	for _, c := range cases {
		l = append(l, c.String(cfg.F))
	}
	r.Violate("batch/"+cfg.String(), fmt.Sprintf("%v: a circuit of %d operations, each of which holds alone, is rejected: %v", cfg, len(cases), trim(err)),
		map[string]any{"config": cfg.String(), "cases": l, "solver": trim(err)})
}

func trim(err error) string {
	s := err.Error()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// checkReal runs a batch through the real builder and solver: the outputs
// observed by the engine must be accepted and perturbed ones rejected.
func checkReal(r *rep.R, cfg ops.Cfg, cases []Case, rng *rand.Rand, negatives int) {
	outs, ok := checkCases(r, cfg, cases)
	if !ok {
		return
	}
	var flat []*big.Int
	var owner []int
	for i, o := range outs {
		for range o {
			owner = append(owner, i)
		}
		flat = append(flat, o...)
	}
	in := circuitInputs(cfg, cases)
	cs, err := attack.Compile(attack.BN254(), cfg.FT, len(in), len(flat), circuit(cfg, cases))
	if err != nil {
		r.Violate("compile/"+cfg.String(), fmt.Sprintf("%v: circuit does not compile: %v", cfg, trim(err)), map[string]any{"config": cfg.String()})
		return
	}
	r.Count("real constraint systems compiled", 1)
	r.Count("real constraints", int64(cs.GetNbConstraints()))
	w, err := attack.Witness(attack.BN254(), in, flat)
	if err != nil {
		r.Broken("witness: %v", err)
		return
	}
	r.Count("real solver runs", 1)
	if err := attack.Solve(cs, w, nil); err != nil {
		var l []string
		for _, c := range cases {
			l = append(l, c.String(cfg.F))
		}
		r.Violate("real/"+cfg.String(), fmt.Sprintf("%v: the real constraint system rejects correct results: %v", cfg, trim(err)), map[string]any{"config": cfg.String(), "cases": l})
		return
	}
	for n := 0; n < negatives; n++ {
		k := rng.Intn(len(flat))
		bad := append([]*big.Int(nil), flat...)
		d := int64(1)
		if rng.Intn(2) == 0 {
			d = -1
		}
		bad[k] = new(big.Int).Add(flat[k], big.NewInt(d))
		w, err := attack.Witness(attack.BN254(), in, bad)
		if err != nil {
			continue
		}
		r.Count("real solver runs on wrong results", 1)
		if attack.Solve(cs, w, nil) == nil {
			c := cases[owner[k]]
			r.Violate(fmt.Sprintf("accepts/%s/%s", c.Op.Name, cfg), fmt.Sprintf("%v: %s: the real constraint system accepts output %d off by %d", cfg, c.String(cfg.F), k, d),
				map[string]any{"config": cfg.String(), "case": c.String(cfg.F)})
			return
		}
	}
}

var fts = []frontendtype.Type{frontendtype.R1CS, frontendtype.SCS}

// pickCfg draws a configuration: mostly small range tables, every width sometimes.
func pickCfg(rng *rand.Rand, f fp.Fmt) ops.Cfg {
	c := ops.Cfg{F: f, FT: fts[rng.Intn(2)]}
	switch rng.Intn(8) {
	case 0:
		c.RS = 0
	case 1:
		c.RS = uint(2 + rng.Intn(15))
	case 2:
		c.RS = []uint{11, 12, 16}[rng.Intn(3)]
	case 3:
		c.RS = uint(5 + rng.Intn(5))
	default:
		c.RS = 8
	}
	return c
}

func rngFor(r *rep.R, what string, i int) *rand.Rand {
	return rand.New(rand.NewSource(int64(rep.Mix(uint64(r.Seed), rep.Str(r.ID+what), uint64(i)) >> 1)))
}
