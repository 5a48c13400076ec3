// Package mon is a monitoring execution engine for gnark circuits.
//
// It implements frontend.API / frontend.Compiler over concrete BN254 scalar
// values, so the real circuit code of /repo runs in it unchanged and every
// step it takes is observed: each hint call site, each assertion, each
// boolean marking and each lookup. The semantics are those of gnark's R1CS
// builder, not of gnark's test engine: a wire that was only *marked* boolean
// is not checked, a Select is the arithmetic formula the constraint system
// holds, and structural facts (constant folding, identity of linear
// expressions) follow the linear expressions the builder would hold.
//
// The engine can act as a malicious prover: Tamper may replace the outputs of
// any hint call. Lookup arguments (logderivarg) are decided by membership,
// i.e. the log-derivative argument itself is trusted.
package mon

import (
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/frontendtype"
	"github.com/consensys/gnark/std/math/bits"
)

// V is a wire or linear expression: its value, and a hash of its non-constant
// part (the sum of coefficient times per-wire random). H == 0 means constant.
type V struct {
	Val fr.Element
	H   fr.Element
}

// Failure is the first violated constraint of a run.
type Failure struct {
	Kind     string // equal, boolean, nonzero, range, decompose, build, hint, different, panic
	Msg      string
	Residual fr.Element // for Kind equal: i1-i2
	LHS      fr.Element // the value that was constrained (equal: i1, range: the query)
	Seq      int        // index of the assertion in execution order
	Sites    int        // hint sites executed so far
}

func (f *Failure) Error() string { return f.Kind + ": " + f.Msg }

// Valued says whether the failure knows the value that was constrained.
func (f *Failure) Valued() bool { return f.Kind == "equal" || f.Kind == "range" }

// Site is one recorded hint call.
type Site struct {
	Index    int
	Fn       string
	ID       solver.HintID
	NIn      int
	In       []*big.Int // only when Record
	Honest   []*big.Int // only when Record
	Used     []*big.Int // only when Record
	Deferred bool
	Stack    uint64 // hash of the call stack, only when Stacks
}

type Engine struct {
	FT      frontendtype.Type
	Record  bool
	Stacks  bool // record the call stacks of hints, with Record
	Tamper  func(e *Engine, site int, fn string, in, out []*big.Int)
	Sites   []Site
	NSites  int
	NAssert int
	NRange  int
	NMarks  int
	// Asserted (only when Record) holds the constrained values by Seq.
	Asserted   map[int]fr.Element
	HintPanics int
	InDefer    bool
	// FullLookup runs the log-derivative argument itself (with a pseudo random challenge).
	FullLookup bool
	// Equal, if set, sees both sides of an equality assertion first and may take it over.
	Equal    func(i1, i2 frontend.Variable) bool
	deferred []func(frontend.API) error
	kv       map[any]any
	marks    map[V]struct{}
	wire     uint64
	tblMemo  map[string]bool
}

var hashState = func() fr.Element {
	var x fr.Element
	x.SetUint64(0x9e3779b97f4a7c15)
	x.Square(&x)
	x.Square(&x)
	return x
}()

var (
	wireHashMu sync.Mutex
	wireHashes atomic.Pointer[[]fr.Element]
)

// wireHash is a fixed pseudo random field element per wire index.
func wireHash(i uint64) fr.Element {
	if t := wireHashes.Load(); t != nil && i < uint64(len(*t)) {
		return (*t)[i]
	}
	wireHashMu.Lock()
	defer wireHashMu.Unlock()
	var t []fr.Element
	if p := wireHashes.Load(); p != nil {
		t = append(t, *p...)
	}
	for n := len(t); uint64(n) <= 2*i+64; n++ {
		h := hashState
		if n > 0 {
			var c fr.Element
			c.SetUint64(uint64(n)*0xbf58476d1ce4e5b9 + 0x94d049bb133111eb)
			h.Square(&t[n-1])
			h.Add(&h, &c)
		}
		t = append(t, h)
	}
	wireHashes.Store(&t)
	return t[i]
}

func init() { wireHash(1 << 14) }

var Modulus = fr.Modulus()

func New() *Engine {
	return &Engine{FT: frontendtype.R1CS, kv: map[any]any{}, marks: map[V]struct{}{}}
}

// fail aborts the run.
func (e *Engine) fail(kind, format string, a ...any) {
	panic(&Failure{Kind: kind, Msg: fmt.Sprintf(format, a...), Seq: e.seq(), Sites: e.NSites})
}

func (e *Engine) newWire(val *fr.Element) *V {
	h := wireHash(e.wire)
	e.wire++
	return &V{Val: *val, H: h}
}

// Input allocates a fresh input wire.
func (e *Engine) Input(v *big.Int) *V {
	var x fr.Element
	x.SetBigInt(v)
	return e.newWire(&x)
}

// InputBool allocates a wire that earlier circuit code already constrained boolean.
func (e *Engine) InputBool(v *big.Int) *V {
	w := e.Input(v)
	e.marks[*w] = struct{}{}
	return w
}

func cst(x uint64) *V { var v V; v.Val.SetUint64(x); return &v }

func (e *Engine) v(i frontend.Variable) *V {
	switch t := i.(type) {
	case *V:
		return t
	case V:
		return &t
	case *big.Int:
		var v V
		v.Val.SetBigInt(t)
		return &v
	case big.Int:
		var v V
		v.Val.SetBigInt(&t)
		return &v
	case int:
		var v V
		v.Val.SetInt64(int64(t))
		return &v
	case uint:
		return cst(uint64(t))
	case uint64:
		return cst(t)
	case nil:
		panic("nil variable")
	}
	var v V
	if _, err := v.Val.SetInterface(i); err != nil {
		panic(err)
	}
	return &v
}

// Big returns the value of a variable as a big.Int.
func (e *Engine) Big(i frontend.Variable) *big.Int {
	var b big.Int
	x := e.v(i)
	x.Val.BigInt(&b)
	return &b
}

// SignedBig maps the upper half of the field to negative integers.
func (e *Engine) SignedBig(i frontend.Variable) *big.Int {
	b := e.Big(i)
	if b.Cmp(halfMod) > 0 {
		b.Sub(b, Modulus)
	}
	return b
}

var halfMod = new(big.Int).Rsh(Modulus, 1)

// ---- frontend.API ----

func (e *Engine) Add(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	a, b := e.v(i1), e.v(i2)
	r := &V{}
	r.Val.Add(&a.Val, &b.Val)
	r.H.Add(&a.H, &b.H)
	for _, x := range in {
		c := e.v(x)
		r.Val.Add(&r.Val, &c.Val)
		r.H.Add(&r.H, &c.H)
	}
	return r
}

func (e *Engine) MulAcc(a, b, c frontend.Variable) frontend.Variable {
	return e.Add(a, e.Mul(b, c))
}

func (e *Engine) Neg(i1 frontend.Variable) frontend.Variable {
	a := e.v(i1)
	r := &V{}
	r.Val.Neg(&a.Val)
	r.H.Neg(&a.H)
	return r
}

func (e *Engine) Sub(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	a, b := e.v(i1), e.v(i2)
	r := &V{}
	r.Val.Sub(&a.Val, &b.Val)
	r.H.Sub(&a.H, &b.H)
	for _, x := range in {
		c := e.v(x)
		r.Val.Sub(&r.Val, &c.Val)
		r.H.Sub(&r.H, &c.H)
	}
	return r
}

func (e *Engine) mul2(a, b *V) *V {
	ac, bc := a.H.IsZero(), b.H.IsZero()
	r := &V{}
	r.Val.Mul(&a.Val, &b.Val)
	switch {
	case ac:
		r.H.Mul(&a.Val, &b.H)
	case bc:
		r.H.Mul(&b.Val, &a.H)
	default:
		r.H = wireHash(e.wire)
		e.wire++
	}
	return r
}

func (e *Engine) Mul(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := e.mul2(e.v(i1), e.v(i2))
	for _, x := range in {
		r = e.mul2(r, e.v(x))
	}
	return r
}

func (e *Engine) DivUnchecked(i1, i2 frontend.Variable) frontend.Variable {
	a, b := e.v(i1), e.v(i2)
	if b.H.IsZero() {
		if b.Val.IsZero() {
			panic("div by constant 0")
		}
		r := &V{}
		var inv fr.Element
		inv.Inverse(&b.Val)
		r.Val.Mul(&a.Val, &inv)
		r.H.Mul(&a.H, &inv)
		return r
	}
	if b.Val.IsZero() {
		if !a.Val.IsZero() {
			e.fail("nonzero", "division by zero")
		}
		var z fr.Element
		return e.newWire(&z)
	}
	var x fr.Element
	x.Inverse(&b.Val)
	x.Mul(&x, &a.Val)
	return e.newWire(&x)
}

func (e *Engine) Div(i1, i2 frontend.Variable) frontend.Variable {
	b := e.v(i2)
	if !b.H.IsZero() && b.Val.IsZero() {
		e.fail("nonzero", "division by zero")
	}
	return e.DivUnchecked(i1, i2)
}

func (e *Engine) Inverse(i1 frontend.Variable) frontend.Variable {
	a := e.v(i1)
	var x fr.Element
	x.Inverse(&a.Val)
	if a.H.IsZero() {
		if a.Val.IsZero() {
			panic("inverse by constant 0")
		}
		return &V{Val: x}
	}
	if a.Val.IsZero() {
		e.fail("nonzero", "inverse of zero")
	}
	return e.newWire(&x)
}

func (e *Engine) ToBinary(i1 frontend.Variable, n ...int) []frontend.Variable {
	nb := fr.Bits
	if len(n) == 1 {
		nb = n[0]
	}
	return bits.ToBinary(e, i1, bits.WithNbDigits(nb))
}

func (e *Engine) FromBinary(b ...frontend.Variable) frontend.Variable { return bits.FromBinary(e, b) }

func (e *Engine) Xor(a, b frontend.Variable) frontend.Variable {
	x, y := e.v(a), e.v(b)
	e.AssertIsBoolean(x)
	e.AssertIsBoolean(y)
	t := e.Sub(1, e.Mul(y, 2))
	t = e.Add(e.Mul(x, t), y)
	e.MarkBoolean(t)
	return t
}

func (e *Engine) Or(a, b frontend.Variable) frontend.Variable {
	x, y := e.v(a), e.v(b)
	e.AssertIsBoolean(x)
	e.AssertIsBoolean(y)
	var t, s fr.Element
	t.Mul(&x.Val, &y.Val)
	s.Add(&x.Val, &y.Val)
	s.Sub(&s, &t)
	r := e.newWire(&s)
	e.MarkBoolean(r)
	return r
}

func (e *Engine) And(a, b frontend.Variable) frontend.Variable {
	x, y := e.v(a), e.v(b)
	e.AssertIsBoolean(x)
	e.AssertIsBoolean(y)
	r := e.mul2(x, y)
	e.MarkBoolean(r)
	return r
}

func (e *Engine) Select(b frontend.Variable, i1, i2 frontend.Variable) frontend.Variable {
	c, x, y := e.v(b), e.v(i1), e.v(i2)
	e.AssertIsBoolean(c)
	if c.H.IsZero() {
		if c.Val.IsOne() {
			return x
		}
		return y
	}
	if x.H.IsZero() && y.H.IsZero() {
		d := &V{}
		d.Val.Sub(&x.Val, &y.Val)
		r := e.mul2(c, d)
		r.Val.Add(&r.Val, &y.Val)
		return r
	}
	if x.H.IsZero() && x.Val.IsZero() {
		n := &V{}
		n.Val.SetOne()
		n.Val.Sub(&n.Val, &c.Val)
		n.H.Neg(&c.H)
		return e.mul2(n, y)
	}
	d := &V{}
	d.Val.Sub(&x.Val, &y.Val)
	d.H.Sub(&x.H, &y.H)
	w := e.mul2(c, d)
	r := &V{}
	r.Val.Add(&w.Val, &y.Val)
	r.H.Add(&w.H, &y.H)
	return r
}

func (e *Engine) Lookup2(b0, b1 frontend.Variable, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	e.AssertIsBoolean(b0)
	e.AssertIsBoolean(b1)
	lo := e.Select(b0, i1, i0)
	hi := e.Select(b0, i3, i2)
	return e.Select(b1, hi, lo)
}

func (e *Engine) IsZero(i1 frontend.Variable) frontend.Variable {
	a := e.v(i1)
	var r fr.Element
	if a.Val.IsZero() {
		r.SetOne()
	}
	if a.H.IsZero() {
		return &V{Val: r}
	}
	w := e.newWire(&r)
	e.MarkBoolean(w)
	return w
}

func (e *Engine) Cmp(i1, i2 frontend.Variable) frontend.Variable {
	a, b := e.v(i1), e.v(i2)
	var r fr.Element
	r.SetInt64(int64(a.Val.Cmp(&b.Val)))
	if a.H.IsZero() && b.H.IsZero() {
		return &V{Val: r}
	}
	return e.newWire(&r)
}

func (e *Engine) AssertIsEqual(i1, i2 frontend.Variable) {
	if e.Equal != nil && e.Equal(i1, i2) {
		return
	}
	a, b := e.v(i1), e.v(i2)
	e.NAssert++
	if e.Record {
		e.note(e.seq(), a)
	}
	if !a.Val.Equal(&b.Val) {
		f := &Failure{Kind: "equal", Msg: a.Val.String() + " != " + b.Val.String(), Seq: e.seq(), Sites: e.NSites, LHS: a.Val}
		f.Residual.Sub(&a.Val, &b.Val)
		panic(f)
	}
}

func (e *Engine) AssertIsDifferent(i1, i2 frontend.Variable) {
	a, b := e.v(i1), e.v(i2)
	e.NAssert++
	if a.Val.Equal(&b.Val) {
		e.fail("different", "values equal")
	}
}

func (e *Engine) AssertIsBoolean(i1 frontend.Variable) {
	a := e.v(i1)
	if a.H.IsZero() {
		if !(a.Val.IsZero() || a.Val.IsOne()) {
			panic("assertIsBoolean failed: constant is not 0 or 1")
		}
		return
	}
	if _, ok := e.marks[*a]; ok {
		return
	}
	e.marks[*a] = struct{}{}
	e.NAssert++
	if !(a.Val.IsZero() || a.Val.IsOne()) {
		e.fail("boolean", "%s", a.Val.String())
	}
}

func (e *Engine) AssertIsCrumb(i1 frontend.Variable) {
	a := e.v(i1)
	e.NAssert++
	if !a.Val.IsUint64() || a.Val.Uint64() > 3 {
		e.fail("crumb", "%s", a.Val.String())
	}
}

func (e *Engine) AssertIsLessOrEqual(v frontend.Variable, bound frontend.Variable) {
	a, b := e.v(v), e.v(bound)
	e.NAssert++
	if a.Val.Cmp(&b.Val) > 0 {
		e.fail("lessOrEqual", "%s > %s", a.Val.String(), b.Val.String())
	}
}

func (e *Engine) Println(a ...frontend.Variable) {}

func (e *Engine) Compiler() frontend.Compiler { return e }

func (e *Engine) GetNbConstraints() int { return e.NAssert }

// ---- frontend.Compiler ----

func (e *Engine) MarkBoolean(v frontend.Variable) {
	a := e.v(v)
	if a.H.IsZero() {
		if !(a.Val.IsZero() || a.Val.IsOne()) {
			panic("MarkBoolean called a non-boolean constant")
		}
		return
	}
	e.NMarks++
	e.marks[*a] = struct{}{}
}

func (e *Engine) IsBoolean(v frontend.Variable) bool {
	a := e.v(v)
	if a.H.IsZero() {
		return a.Val.IsZero() || a.Val.IsOne()
	}
	_, ok := e.marks[*a]
	return ok
}

func (e *Engine) ConstantValue(v frontend.Variable) (*big.Int, bool) {
	switch t := v.(type) {
	case *V:
		if !t.H.IsZero() {
			return nil, false
		}
	case int:
		if t >= 0 && t < len(smallBig) {
			// shared: nothing that asks for a constant's value writes to it
			return smallBig[t], true
		}
	}
	return e.Big(v), true
}

var smallBig = func() []*big.Int {
	r := make([]*big.Int, 1<<17)
	for i := range r {
		r[i] = big.NewInt(int64(i))
	}
	return r
}()

func (e *Engine) Field() *big.Int                       { return new(big.Int).Set(Modulus) }
func (e *Engine) FieldBitLen() int                      { return fr.Bits }
func (e *Engine) FrontendType() frontendtype.Type       { return e.FT }
func (e *Engine) SetKeyValue(key, value any)            { e.kv[key] = value }
func (e *Engine) GetKeyValue(key any) any               { return e.kv[key] }
func (e *Engine) Defer(cb func(api frontend.API) error) { e.deferred = append(e.deferred, cb) }
func (e *Engine) InternalVariable(uint32) frontend.Variable {
	panic("not supported")
}
func (e *Engine) ToCanonicalVariable(frontend.Variable) frontend.CanonicalVariable {
	panic("not supported")
}
func (e *Engine) SetGkrInfo(constraint.GkrInfo) error                        { panic("not supported") }
func (e *Engine) AddBlueprint(b constraint.Blueprint) constraint.BlueprintID { panic("not supported") }
func (e *Engine) AddInstruction(constraint.BlueprintID, []uint32) []uint32   { panic("not supported") }

type stopSentinel struct{}

// Commit is reached only through the lookup arguments, which the engine has
// already decided by membership.
func (e *Engine) Commit(toCommit ...frontend.Variable) (frontend.Variable, error) {
	if !e.FullLookup {
		panic(stopSentinel{})
	}
	var c fr.Element
	c.SetUint64(0x5bd1e995)
	for _, x := range toCommit {
		v := e.v(x)
		c.Square(&c)
		c.Add(&c, &v.Val)
	}
	return e.newWire(&c), nil
}

var (
	fnMu    sync.RWMutex
	fnNames = map[uintptr]fnInfo{}
)

type fnInfo struct {
	name string
	id   solver.HintID
}

func hintInfo(f solver.Hint) fnInfo {
	p := reflect.ValueOf(f).Pointer()
	fnMu.RLock()
	n, ok := fnNames[p]
	fnMu.RUnlock()
	if ok {
		return n
	}
	n = fnInfo{solver.GetHintName(f), solver.GetHintID(f)}
	fnMu.Lock()
	fnNames[p] = n
	fnMu.Unlock()
	return n
}

func (e *Engine) NewHintForId(id solver.HintID, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	if f := solver.GetRegisteredHint(id); f != nil {
		return e.NewHint(f, nbOutputs, inputs...)
	}
	return nil, fmt.Errorf("no hint registered with id #%d", id)
}

func (e *Engine) NewHint(f solver.Hint, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	info := hintInfo(f)
	if strings.HasSuffix(info.name, "logderivarg.countHint") {
		return e.lookup(nbOutputs, inputs)
	}
	in := make([]*big.Int, len(inputs))
	for i, x := range inputs {
		in[i] = e.Big(x)
	}
	out := make([]*big.Int, nbOutputs)
	for i := range out {
		out[i] = new(big.Int)
	}
	site := e.NSites
	e.NSites++
	var rec *Site
	if e.Record {
		e.Sites = append(e.Sites, Site{Index: site, Fn: info.name, ID: info.id, NIn: len(in), In: cloneBig(in), Deferred: e.InDefer})
		if e.Stacks {
			var pcs [32]uintptr
			h := uint64(14695981039346656037)
			for _, pc := range pcs[:runtime.Callers(2, pcs[:])] {
				h = (h ^ uint64(pc)) * 1099511628211
			}
			e.Sites[len(e.Sites)-1].Stack = h
		}
		rec = &e.Sites[len(e.Sites)-1]
	}
	if e.Tamper != nil {
		// a malicious prover is not stopped by a hint function that gives up
		e.safeHint(f, info.name, in, out)
	} else if err := f(e.Field(), in, out); err != nil {
		e.fail("hint", "%s: %v", info.name, err)
	}
	if rec != nil {
		for i := range in {
			if in[i].Cmp(rec.In[i]) != 0 {
				e.fail("hint-mutates-input", "%s input %d", info.name, i)
			}
		}
		rec.Honest = cloneBig(out)
	}
	if e.Tamper != nil {
		e.Tamper(e, site, info.name, in, out)
	}
	if rec != nil {
		rec.Used = cloneBig(out)
	}
	res := make([]frontend.Variable, nbOutputs)
	for i := range out {
		var x fr.Element
		x.SetBigInt(out[i])
		res[i] = e.newWire(&x)
	}
	return res, nil
}

func (e *Engine) safeHint(f solver.Hint, name string, in, out []*big.Int) {
	defer func() {
		if r := recover(); r != nil {
			e.HintPanics++
			for i := range out {
				out[i].SetUint64(0)
			}
		}
	}()
	if strings.Contains(name, "PowerOfTwo") && len(in) > 0 && in[0].BitLen() > 16 {
		// do not let the real hint allocate 2^2^k
		return
	}
	if err := f(e.Field(), in, out); err != nil {
		for i := range out {
			out[i].SetUint64(0)
		}
	}
}

func cloneBig(a []*big.Int) []*big.Int {
	r := make([]*big.Int, len(a))
	for i := range a {
		r[i] = new(big.Int).Set(a[i])
	}
	return r
}

// lookup decides a log-derivative lookup argument by membership.
func (e *Engine) lookup(nbOutputs int, inputs []frontend.Variable) ([]frontend.Variable, error) {
	nb := int(e.Big(inputs[0]).Int64())
	row := int(e.Big(inputs[1]).Int64())
	tbl := inputs[2 : 2+nb*row]
	q := inputs[2+nb*row:]
	nq := len(q) / row
	if nq == 0 {
		// gnark's hint requires at least one query
		e.fail("build", "lookup without queries")
	}
	counts := make([]uint64, nb)
	if row == 1 {
		seq := true
		for i := range tbl {
			if t, ok := tbl[i].(int); !ok || t != i {
				seq = false
				break
			}
		}
		if seq {
			for i := range q {
				v := e.v(q[i])
				e.NRange++
				if e.Record {
					e.note(e.seq(), v)
				}
				if !v.Val.IsUint64() || v.Val.Uint64() >= uint64(nb) {
					e.failRange(i, v)
				}
				counts[v.Val.Uint64()]++
			}
		} else {
			m := make(map[fr.Element]int, nb)
			for i := range tbl {
				m[e.v(tbl[i]).Val] = i
			}
			for i := range q {
				v := e.v(q[i])
				e.NRange++
				if e.Record {
					e.note(e.seq(), v)
				}
				k, ok := m[v.Val]
				if !ok {
					e.failRange(i, v)
				}
				counts[k]++
			}
		}
	} else {
		m := make(map[string]int, nb)
		key := func(vs []frontend.Variable) string {
			var sb strings.Builder
			for _, x := range vs {
				b := e.v(x).Val.Bytes()
				sb.Write(b[:])
			}
			return sb.String()
		}
		for i := 0; i < nb; i++ {
			m[key(tbl[i*row:(i+1)*row])] = i
		}
		for i := 0; i < nq; i++ {
			e.NRange++
			k, ok := m[key(q[i*row:(i+1)*row])]
			if !ok {
				e.failRange(i, e.v(q[i*row]))
			}
			counts[k]++
		}
	}
	if !e.FullLookup {
		// the counts are only used by the argument itself
		res := make([]frontend.Variable, nbOutputs)
		z := &V{}
		z.H = wireHash(e.wire)
		for i := range res {
			res[i] = z
		}
		return res, nil
	}
	res := make([]frontend.Variable, nbOutputs)
	for i := range res {
		var x fr.Element
		x.SetUint64(counts[i])
		res[i] = e.newWire(&x)
	}
	return res, nil
}

func (e *Engine) failRange(i int, v *V) {
	panic(&Failure{Kind: "range", Msg: fmt.Sprintf("lookup query %d not in table: %s", i, v.Val.String()), Seq: e.seq(), Sites: e.NSites, LHS: v.Val})
}

// seq numbers constraints in execution order.
func (e *Engine) seq() int { return e.NAssert + e.NRange }

func (e *Engine) note(seq int, v *V) {
	if e.Asserted == nil {
		e.Asserted = map[int]fr.Element{}
	}
	e.Asserted[seq] = v.Val
}

// Run executes a circuit body and all deferred callbacks; it returns the first
// violated constraint, or nil if the constraint system accepts.
func (e *Engine) Run(body func(api frontend.API)) (fail *Failure) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(*Failure); ok {
				fail = f
				return
			}
			fail = &Failure{Kind: "panic", Msg: fmt.Sprint(r), Seq: e.seq(), Sites: e.NSites}
		}
	}()
	body(e)
	e.InDefer = true
	for i := 0; i < len(e.deferred); i++ {
		if err := e.runDeferred(e.deferred[i]); err != nil {
			e.fail("build", "%v", err)
		}
	}
	return nil
}

func (e *Engine) runDeferred(cb func(frontend.API) error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopSentinel); ok {
				return
			}
			panic(r)
		}
	}()
	return cb(e)
}
