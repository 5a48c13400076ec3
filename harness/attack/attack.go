// Package attack drives the monitoring engine as a malicious prover: it
// replaces hint outputs, lets all later hints be recomputed honestly, and
// reports every run that the constraints accept although an output differs
// from the honest one.
package attack

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"

	"verif/harness/mon"
)

// Body is the circuit under test: it runs on the monitoring engine and on the
// real builders alike.
type Body func(api frontend.API, in []frontend.Variable) []frontend.Variable

// Change is one replaced hint output.
type Change struct {
	Site int
	Out  int
	Val  *big.Int
}

// Forgery is an accepted run with different outputs.
type Forgery struct {
	Kind    string
	Fn      string
	Site    int
	Changes []Change
	Honest  []*big.Int
	Forged  []*big.Int
	// Calls are the hint calls of the forging run whose outputs are not the honest function of their inputs.
	Calls []mon.Site
}

func (f *Forgery) String() string {
	return fmt.Sprintf("%s at site %d (%s) changes %v: outputs %v instead of %v", f.Kind, f.Site, short(f.Fn), f.Changes, f.Forged, f.Honest)
}

func (c Change) String() string { return fmt.Sprintf("[%d.%d:=%s]", c.Site, c.Out, signed(c.Val)) }

func signed(v *big.Int) string {
	h := new(big.Int).Rsh(mon.Modulus, 1)
	if v.Cmp(h) > 0 {
		return new(big.Int).Sub(v, mon.Modulus).String()
	}
	return v.String()
}

func short(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '.' {
			return s[i+1:]
		}
	}
	return s
}

// Stats counts what was observed.
type Stats struct {
	Runs       int // executions of the circuit
	Accepted   int // tampered runs the constraints accepted
	Benign     int // of those, outputs unchanged
	Rejected   int
	SitesSeen  int
	Places     int            // places of the code attacked briefly
	ByKind     map[string]int // rejections by kind of constraint
	FnTampered map[string]int
	Panics     int
	Free       int // hint outputs that nothing depends on
}

func NewStats() *Stats { return &Stats{ByKind: map[string]int{}, FnTampered: map[string]int{}} }

func (s *Stats) Merge(o *Stats) {
	s.Runs += o.Runs
	s.Accepted += o.Accepted
	s.Benign += o.Benign
	s.Rejected += o.Rejected
	s.SitesSeen += o.SitesSeen
	s.Places += o.Places
	s.Panics += o.Panics
	s.Free += o.Free
	for k, v := range o.ByKind {
		s.ByKind[k] += v
	}
	for k, v := range o.FnTampered {
		s.FnTampered[k] += v
	}
}

// Opts configures the attack.
type Opts struct {
	MakeEngine func() *mon.Engine
	// FirstSite..: sites before this index are left alone.
	FirstSite int
	// Deferred also attacks the hints of deferred code (limb decompositions).
	Deferred bool
	// DeferredOnly attacks only those.
	DeferredOnly bool
	// MaxBits bounds the powers of two tried.
	MaxBits int
	// TableBits is the width used for aliasing attacks on packed tables.
	TableBits []int
	// Pairs enables compensated two-output attacks.
	Pairs bool
	// Equal decides whether two output vectors mean the same; nil: identical values.
	Equal func(honest, got []*big.Int) bool
	// AcceptAny expects the honest run to be rejected: any accepted run is a forgery.
	AcceptAny bool
	// Stop after this many forgeries (0: 1).
	Max int
	// Thin, if >1, tries only every Thin-th power of two (offset by Phase).
	Thin, Phase int
	// Every, if >1, attacks only every Every-th hint call (offset by Phase),
	// and one of the other calls of each place of the code briefly.
	Every int
}

type runner struct {
	body   Body
	in     []*big.Int
	o      *Opts
	st     *Stats
	honest []*big.Int
	forg   []*Forgery
}

var one = big.NewInt(1)

func mod(v *big.Int) *big.Int { return new(big.Int).Mod(v, mon.Modulus) }

// run executes with the given changes. It returns outputs (nil if rejected) and the failure.
func (r *runner) run(ch []Change, record bool) ([]*big.Int, *mon.Failure, *mon.Engine) {
	e := r.o.MakeEngine()
	e.Record = record
	e.Stacks = record && len(ch) == 0 && r.o.Every > 1
	if len(ch) > 0 {
		e.Tamper = func(e *mon.Engine, site int, fn string, in, out []*big.Int) {
			for _, c := range ch {
				if c.Site == site && c.Out < len(out) {
					out[c.Out].Set(c.Val)
				}
			}
		}
	}
	var outs []*big.Int
	f := e.Run(func(api frontend.API) {
		in := make([]frontend.Variable, len(r.in))
		for i := range in {
			in[i] = e.Input(r.in[i])
		}
		vs := r.body(api, in)
		outs = make([]*big.Int, len(vs))
		for i := range vs {
			outs[i] = e.Big(vs[i])
		}
	})
	r.st.Runs++
	if f != nil {
		return nil, f, e
	}
	return outs, nil, e
}

func (r *runner) equal(a, b []*big.Int) bool {
	if r.o.Equal != nil {
		return r.o.Equal(a, b)
	}
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// try runs a tampering; it returns the failure (nil if accepted).
func (r *runner) try(kind string, fn string, ch []Change) *mon.Failure {
	out, f, _ := r.run(ch, false)
	if f != nil {
		r.st.Rejected++
		r.st.ByKind[f.Kind]++
		if f.Kind == "panic" {
			r.st.Panics++
		}
		return f
	}
	r.st.Accepted++
	if r.equal(r.honest, out) {
		r.st.Benign++
		return nil
	}
	// replay with recording to collect the evidence
	_, _, e := r.run(ch, true)
	fg := &Forgery{Kind: kind, Fn: fn, Site: ch[0].Site, Changes: ch, Honest: r.honest, Forged: out}
	for _, s := range e.Sites {
		for i := range s.Honest {
			if s.Honest[i].Cmp(s.Used[i]) != 0 {
				fg.Calls = append(fg.Calls, s)
				break
			}
		}
	}
	r.forg = append(r.forg, fg)
	return nil
}

func (r *runner) done() bool {
	m := r.o.Max
	if m == 0 {
		m = 1
	}
	return len(r.forg) >= m
}

func inv2(k int) *big.Int {
	t := new(big.Int).Lsh(one, uint(k))
	return t.ModInverse(t, mon.Modulus)
}

// probes are values with no structure.
var probes = func() []*big.Int {
	a, _ := new(big.Int).SetString("7919191919191919191919191919191919191919191919191919191917", 10)
	b := new(big.Int).Sub(mon.Modulus, new(big.Int).Rsh(a, 70))
	return []*big.Int{a, b}
}()

var inv2tab = func() []*big.Int {
	t := make([]*big.Int, 160)
	for i := range t {
		t[i] = inv2(i)
	}
	return t
}()

// Values lists replacement values for an honest output h.
func (r *runner) values(h *big.Int, in []*big.Int) []*big.Int {
	var vs []*big.Int
	seen := map[string]bool{h.String(): true}
	add := func(v *big.Int) {
		v = mod(v)
		s := string(v.Bytes())
		if !seen[s] && v.Cmp(h) != 0 {
			seen[s] = true
			vs = append(vs, v)
		}
	}
	n := func(x int64) *big.Int { return big.NewInt(x) }
	for _, d := range []int64{1, -1, 2, -2, 3, -3} {
		add(new(big.Int).Add(h, n(d)))
	}
	add(n(0))
	add(n(1))
	add(n(2))
	add(new(big.Int).Neg(h))
	add(new(big.Int).Sub(one, h))
	add(new(big.Int).Add(h, h))
	add(new(big.Int).Mul(h, inv2tab[1]))
	add(new(big.Int).Sub(mon.Modulus, one))
	for k := 1; k <= r.o.MaxBits; k++ {
		if r.o.Thin > 1 && k%r.o.Thin != r.o.Phase%r.o.Thin {
			continue
		}
		p := new(big.Int).Lsh(one, uint(k))
		add(new(big.Int).Add(h, p))
		add(new(big.Int).Sub(h, p))
		add(p)
		if k < len(inv2tab) {
			add(new(big.Int).Add(h, inv2tab[k]))
			add(new(big.Int).Sub(h, inv2tab[k]))
		}
	}
	// packed tables: key || value, alias key by a carry out of value
	for _, tb := range r.o.TableBits {
		if len(in) == 0 {
			break
		}
		e := new(big.Int).Set(in[0])
		for i := 0; i < tb; i++ {
			v := new(big.Int).Sub(big.NewInt(int64(i)), e)
			v.Lsh(v, uint(tb))
			v.Add(v, new(big.Int).Lsh(one, uint(i)))
			add(v)
		}
	}
	return vs
}

// lies lists what the hint function answers to slightly different inputs,
// where more than one output differs.
func lies(s mon.Site) (l [][]*big.Int) {
	f := solver.GetRegisteredHint(s.ID)
	if f == nil {
		return nil
	}
	seen := map[string]bool{}
	for k := range s.In {
		for _, d := range []int64{1, -1, 2, -2} {
			in := make([]*big.Int, len(s.In))
			for i := range in {
				in[i] = new(big.Int).Set(s.In[i])
			}
			in[k] = mod(in[k].Add(in[k], big.NewInt(d)))
			out := make([]*big.Int, len(s.Honest))
			for i := range out {
				out[i] = new(big.Int)
			}
			if !gives(f, in, out) {
				continue
			}
			n := 0
			for i := range out {
				out[i] = mod(out[i])
				if out[i].Cmp(mod(s.Honest[i])) != 0 {
					n++
				}
			}
			if t := fmt.Sprint(out); n > 1 && !seen[t] {
				seen[t] = true
				l = append(l, out)
			}
		}
	}
	return l
}

// gives runs a hint function that may give up.
func gives(f solver.Hint, in, out []*big.Int) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return f(mon.Modulus, in, out) == nil
}

// briefly lists the replacement values most likely to pass for an honest
// output h.
func (r *runner) briefly(h *big.Int) []*big.Int {
	var vs []*big.Int
	seen := map[string]bool{}
	for _, v := range []*big.Int{new(big.Int).Sub(one, h), new(big.Int).Add(h, one), new(big.Int).Sub(h, one), new(big.Int), new(big.Int).Neg(h), new(big.Int).Lsh(h, 1)} {
		v = mod(v)
		if s := v.String(); v.Cmp(h) != 0 && !seen[s] {
			seen[s] = true
			vs = append(vs, v)
		}
	}
	return vs
}

// Run performs the attack. ok=false means the honest run itself was rejected.
func Run(body Body, in []*big.Int, o *Opts, st *Stats) (forgeries []*Forgery, honestFail *mon.Failure) {
	r := &runner{body: body, in: in, o: o, st: st}
	out, f, e := r.run(nil, true)
	if o.AcceptAny {
		if f == nil {
			return []*Forgery{{Kind: "honest", Fn: "none", Forged: out}}, nil
		}
		o.Equal = func(a, b []*big.Int) bool { return false }
	} else if f != nil {
		return nil, f
	}
	r.honest = out
	sites := e.Sites
	type slot struct {
		s   mon.Site
		out int
	}
	var slots []slot
	others := map[uint64][]mon.Site{}
	for _, s := range sites {
		if s.Index < o.FirstSite {
			continue
		}
		if s.Deferred && !o.Deferred && !o.DeferredOnly {
			continue
		}
		if !s.Deferred && o.DeferredOnly {
			continue
		}
		if o.Every > 1 && (s.Index+o.Phase)%o.Every != 0 {
			others[s.Stack] = append(others[s.Stack], s)
			continue
		}
		st.SitesSeen++
		for j := range s.Honest {
			slots = append(slots, slot{s, j})
		}
	}
	for _, l := range others {
		st.Places++
		s := l[o.Phase%len(l)]
		for j, h := range s.Honest {
			for _, v := range r.briefly(h) {
				st.FnTampered[short(s.Fn)]++
				r.try("single", s.Fn, []Change{{s.Index, j, v}})
				if r.done() {
					return r.forg, nil
				}
			}
		}
	}
	// outputs that no constraint and no result depends on get a token attack
	live := slots[:0:0]
	for _, sl := range slots {
		free := true
		for _, v := range probes {
			if f := r.try("single", sl.s.Fn, []Change{{sl.s.Index, sl.out, v}}); f != nil {
				free = false
				break
			}
			if r.done() {
				return r.forg, nil
			}
		}
		if free {
			st.Free++
			for _, v := range []*big.Int{new(big.Int), one, big.NewInt(2)} {
				r.try("single", sl.s.Fn, []Change{{sl.s.Index, sl.out, v}})
			}
			if r.done() {
				return r.forg, nil
			}
			continue
		}
		live = append(live, sl)
	}
	slots = live
	for _, sl := range slots {
		for _, v := range r.values(sl.s.Honest[sl.out], sl.s.In) {
			st.FnTampered[short(sl.s.Fn)]++
			r.try("single", sl.s.Fn, []Change{{sl.s.Index, sl.out, v}})
			if r.done() {
				return r.forg, nil
			}
		}
	}
	// consistent lies: all outputs of a call at once, as the honest function
	// gives them for other inputs.
	for k, sl := range slots {
		if k > 0 && slots[k-1].s.Index == sl.s.Index || len(sl.s.Honest) < 2 {
			continue
		}
		for _, out := range lies(sl.s) {
			var ch []Change
			for j := range out {
				if out[j].Cmp(sl.s.Honest[j]) != 0 {
					ch = append(ch, Change{sl.s.Index, j, out[j]})
				}
			}
			st.FnTampered[short(sl.s.Fn)]++
			r.try("consistent", sl.s.Fn, ch)
			if r.done() {
				return r.forg, nil
			}
		}
	}
	// slope solving: find how the first violated constraint's value moves with
	// the output, and choose the output so that this value takes small or
	// honest-looking values (q' = q + t/y in a division, say).
	for _, sl := range slots {
		h := sl.s.Honest[sl.out]
		set := func(d *big.Int) []Change { return []Change{{sl.s.Index, sl.out, mod(new(big.Int).Add(h, d))}} }
		_, f1, _ := r.run(set(big.NewInt(1)), false)
		if f1 == nil || !f1.Valued() {
			continue
		}
		h0, ok := e.Asserted[f1.Seq]
		if !ok {
			continue
		}
		var g fr.Element
		g.Sub(&f1.LHS, &h0)
		if g.IsZero() || smallOrPow2(&g) {
			continue
		}
		g.Inverse(&g)
		var gi big.Int
		g.BigInt(&gi)
		for _, t := range slopeTargets {
			st.FnTampered[short(sl.s.Fn)]++
			r.try("slope", sl.s.Fn, set(new(big.Int).Mul(&gi, t)))
			if r.done() {
				return r.forg, nil
			}
		}
	}
	if !o.Pairs {
		return r.forg, nil
	}
	// compensated pairs: change one output, then solve for a later one so that
	// the first violated constraint sees its honest value again (finite
	// differences).
	for _, a := range slots {
		h := a.s.Honest[a.out]
		deltas := []*big.Int{big.NewInt(1), big.NewInt(-1), new(big.Int).Sub(big.NewInt(1), new(big.Int).Lsh(h, 1))}
		if o.MaxBits > 8 {
			deltas = append(deltas, new(big.Int).Lsh(one, uint(o.MaxBits/3)), new(big.Int).Neg(new(big.Int).Lsh(one, uint(o.MaxBits/2))))
		}
		for _, d := range deltas {
			av := mod(new(big.Int).Add(h, d))
			if av.Cmp(h) == 0 {
				continue
			}
			c0 := Change{a.s.Index, a.out, av}
			_, f0, e0 := r.run([]Change{c0}, true)
			if f0 == nil || !f0.Valued() {
				continue
			}
			for _, b := range slots {
				if b.s.Index == a.s.Index && b.out == a.out || b.s.Index < a.s.Index || b.s.Index >= f0.Sites {
					continue
				}
				// b's honest value in the tampered run
				if b.s.Index >= len(e0.Sites) {
					continue
				}
				hb := e0.Sites[b.s.Index].Used
				if b.out >= len(hb) {
					continue
				}
				base := hb[b.out]
				_, f1, _ := r.run([]Change{c0, {b.s.Index, b.out, mod(new(big.Int).Add(base, one))}}, false)
				if f1 == nil || f1.Kind != f0.Kind || f1.Seq != f0.Seq {
					continue
				}
				// residual and honest-value targets
				miss := []fr.Element{}
				if f0.Kind == "equal" {
					miss = append(miss, f0.Residual)
				}
				if h0, ok := e.Asserted[f0.Seq]; ok {
					var m fr.Element
					m.Sub(&f0.LHS, &h0)
					miss = append(miss, m)
				}
				for k := range miss {
					var g, x fr.Element
					if k == 0 && f0.Kind == "equal" {
						g.Sub(&f1.Residual, &f0.Residual)
					} else {
						g.Sub(&f1.LHS, &f0.LHS)
					}
					if g.IsZero() || miss[k].IsZero() {
						continue
					}
					x.Div(&miss[k], &g)
					x.Neg(&x)
					var xb big.Int
					x.BigInt(&xb)
					nb := mod(xb.Add(&xb, base))
					st.FnTampered[short(a.s.Fn)]++
					r.try("compensated", a.s.Fn, []Change{c0, {b.s.Index, b.out, nb}})
					if r.done() {
						return r.forg, nil
					}
				}
			}
		}
	}
	return r.forg, nil
}

var slopeTargets = func() []*big.Int {
	var t []*big.Int
	for _, k := range []uint{0, 1, 2, 4, 8, 12, 20, 23, 24, 28, 31, 40, 52, 53, 60} {
		p := new(big.Int).Lsh(one, k)
		t = append(t, p, new(big.Int).Neg(p))
	}
	return t
}()

// smallOrPow2 says whether plain values already cover the slope.
func smallOrPow2(g *fr.Element) bool {
	var b big.Int
	g.BigInt(&b)
	n := mod(new(big.Int).Neg(&b))
	for _, v := range []*big.Int{&b, n} {
		if v.BitLen() <= 2 || v.BitLen() == int(v.TrailingZeroBits())+1 {
			return true
		}
	}
	return false
}
