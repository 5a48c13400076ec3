// Package fp holds the reference semantics: IEEE-754 binary32/binary64 as the
// hardware computes them, the documented in-circuit representation of a
// number, and the generators of structured test operands. Nothing here uses
// code of /repo.
package fp

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"math/rand"
)

// Fmt is a floating point format.
type Fmt struct {
	Name string
	E, M uint
}

var (
	F32 = Fmt{"f32", 8, 23}
	F64 = Fmt{"f64", 11, 52}
	// Small formats, whose operand spaces can be enumerated.
	F16  = Fmt{"f16", 5, 10}
	BF16 = Fmt{"bf16", 8, 7}
	E4M3 = Fmt{"e4m3", 4, 3}
	E5M2 = Fmt{"e5m2", 5, 2}
	E4M4 = Fmt{"e4m4", 4, 4}
)

func (f Fmt) EMax() int64     { return 1 << (f.E - 1) }
func (f Fmt) ENormMin() int64 { return 2 - f.EMax() }
func (f Fmt) EMin() int64     { return f.ENormMin() - int64(f.M) - 1 }
func (f Fmt) Bits() uint      { return f.E + f.M + 1 }
func (f Fmt) expMask() uint64 { return 1<<f.E - 1 }
func (f Fmt) manMask() uint64 { return 1<<f.M - 1 }

func (f Fmt) Pack(s, e, m uint64) uint64 { return s<<(f.E+f.M) | (e&f.expMask())<<f.M | m&f.manMask() }
func (f Fmt) Unpack(b uint64) (s, e, m uint64) {
	return b >> (f.E + f.M) & 1, b >> f.M & f.expMask(), b & f.manMask()
}
func (f Fmt) IsNaN(b uint64) bool  { _, e, m := f.Unpack(b); return e == f.expMask() && m != 0 }
func (f Fmt) IsInf(b uint64) bool  { _, e, m := f.Unpack(b); return e == f.expMask() && m == 0 }
func (f Fmt) IsZero(b uint64) bool { return b&^(1<<(f.E+f.M)) == 0 }
func (f Fmt) IsAbn(b uint64) bool  { _, e, _ := f.Unpack(b); return e == f.expMask() }
func (f Fmt) IsSub(b uint64) bool  { _, e, m := f.Unpack(b); return e == 0 && m != 0 }
func (f Fmt) Inf(s uint64) uint64  { return f.Pack(s, f.expMask(), 0) }
func (f Fmt) NaN() uint64          { return f.Pack(0, f.expMask(), 1<<(f.M-1)) }
func (f Fmt) Sign(b uint64) uint64 { return b >> (f.E + f.M) & 1 }

// Val converts to float64 (exact; NaN for NaN).
func (f Fmt) Val(b uint64) float64 {
	switch f.M {
	case 23:
		return float64(math.Float32frombits(uint32(b)))
	case 52:
		return math.Float64frombits(b)
	}
	s, e, m := f.Unpack(b)
	var v float64
	switch {
	case e == f.expMask() && m != 0:
		return math.NaN()
	case e == f.expMask():
		v = math.Inf(1)
	case e == 0:
		v = math.Ldexp(float64(m), int(f.ENormMin())-int(f.M))
	default:
		v = math.Ldexp(float64(m|1<<f.M), int(e)-int(f.EMax()-1)-int(f.M))
	}
	if s == 1 {
		v = -v
	}
	return v
}

// Of rounds a float64 to the format, to nearest even.
func (f Fmt) Of(v float64) uint64 {
	switch f.M {
	case 23:
		return uint64(math.Float32bits(float32(v)))
	case 52:
		return math.Float64bits(v)
	}
	var s uint64
	if math.Signbit(v) {
		s, v = 1, -v
	}
	switch {
	case v != v:
		return f.NaN()
	case math.IsInf(v, 0):
		return f.Inf(s)
	case v == 0:
		return f.Pack(s, 0, 0)
	}
	_, e := math.Frexp(v)
	e--
	if int64(e) < f.ENormMin() {
		e = int(f.ENormMin())
	}
	q := math.RoundToEven(math.Ldexp(v, int(f.M)-e))
	// a carry out of the mantissa field increments the exponent field
	enc := uint64(q)
	if q >= math.Ldexp(1, int(f.M)) {
		enc = uint64(int64(e)+f.EMax()-1)<<f.M + (uint64(q) - 1<<f.M)
	}
	if enc >= f.Inf(0) {
		enc = f.Inf(0)
	}
	return enc | s<<(f.E+f.M)
}

// Comp is the documented in-circuit representation: sign, unbiased exponent of
// the normalised mantissa, mantissa with explicit leading one, abnormal flag.
type Comp struct {
	S, E int64
	Man  uint64
	Abn  int64
}

func (c Comp) String() string { return fmt.Sprintf("(s=%d e=%d m=%#x abn=%d)", c.S, c.E, c.Man, c.Abn) }

func (f Fmt) Decode(b uint64) Comp {
	s, e, m := f.Unpack(b)
	c := Comp{S: int64(s)}
	switch {
	case e == f.expMask():
		c.E, c.Abn = f.EMax(), 1
		if m == 0 {
			c.Man = 1 << f.M
		}
	case e == 0 && m == 0:
		c.E = f.EMin()
	case e == 0:
		c.E, c.Man = f.ENormMin(), m
		for c.Man>>f.M == 0 {
			c.Man <<= 1
			c.E--
		}
	default:
		c.E, c.Man = int64(e)-(f.EMax()-1), m|1<<f.M
	}
	return c
}

// IsNaNComp says whether the components denote NaN.
func (c Comp) IsNaN() bool { return c.Abn == 1 && c.Man == 0 }

// Big returns sign, exponent, mantissa, abnormal as field-ready integers.
func (c Comp) Big() [4]*big.Int {
	return [4]*big.Int{big.NewInt(c.S), big.NewInt(c.E), new(big.Int).SetUint64(c.Man), big.NewInt(c.Abn)}
}

func (f Fmt) Add(x, y uint64) uint64 {
	switch f.M {
	case 23:
		return uint64(math.Float32bits(math.Float32frombits(uint32(x)) + math.Float32frombits(uint32(y))))
	case 52:
		return math.Float64bits(math.Float64frombits(x) + math.Float64frombits(y))
	}
	// 53 >= 2(M+1)+2 bits: rounding twice is innocuous
	return f.Of(f.Val(x) + f.Val(y))
}
func (f Fmt) Sub(x, y uint64) uint64 {
	switch f.M {
	case 23:
		return uint64(math.Float32bits(math.Float32frombits(uint32(x)) - math.Float32frombits(uint32(y))))
	case 52:
		return math.Float64bits(math.Float64frombits(x) - math.Float64frombits(y))
	}
	// 53 >= 2(M+1)+2 bits: rounding twice is innocuous
	return f.Of(f.Val(x) - f.Val(y))
}
func (f Fmt) Mul(x, y uint64) uint64 {
	switch f.M {
	case 23:
		return uint64(math.Float32bits(math.Float32frombits(uint32(x)) * math.Float32frombits(uint32(y))))
	case 52:
		return math.Float64bits(math.Float64frombits(x) * math.Float64frombits(y))
	}
	// 53 >= 2(M+1)+2 bits: rounding twice is innocuous
	return f.Of(f.Val(x) * f.Val(y))
}
func (f Fmt) Div(x, y uint64) uint64 {
	switch f.M {
	case 23:
		return uint64(math.Float32bits(math.Float32frombits(uint32(x)) / math.Float32frombits(uint32(y))))
	case 52:
		return math.Float64bits(math.Float64frombits(x) / math.Float64frombits(y))
	}
	// 53 >= 2(M+1)+2 bits: rounding twice is innocuous
	return f.Of(f.Val(x) / f.Val(y))
}
func (f Fmt) Sqrt(x uint64) uint64 {
	// binary64 has more than 2(M+1)+2 bits for every narrower format: rounding twice is innocuous
	return f.Of(math.Sqrt(f.Val(x)))
}
func (f Fmt) Neg(x uint64) uint64                         { return x ^ 1<<(f.E+f.M) }
func (f Fmt) Abs(x uint64) uint64                         { return x &^ (1 << (f.E + f.M)) }
func (f Fmt) un(x uint64, g func(float64) float64) uint64 { return f.Of(g(f.Val(x))) }
func (f Fmt) Trunc(x uint64) uint64                       { return f.un(x, math.Trunc) }
func (f Fmt) Floor(x uint64) uint64                       { return f.un(x, math.Floor) }
func (f Fmt) Ceil(x uint64) uint64                        { return f.un(x, math.Ceil) }
func (f Fmt) Lt(x, y uint64) bool                         { return f.Val(x) < f.Val(y) }
func (f Fmt) Le(x, y uint64) bool                         { return f.Val(x) <= f.Val(y) }
func (f Fmt) Gt(x, y uint64) bool                         { return f.Val(x) > f.Val(y) }
func (f Fmt) Ge(x, y uint64) bool                         { return f.Val(x) >= f.Val(y) }

// Same is bit equality, identifying all NaNs.
func (f Fmt) Same(x, y uint64) bool { return x == y || f.IsNaN(x) && f.IsNaN(y) }

// Next returns the neighbour d steps away in the order of the encodings (same sign).
func (f Fmt) Step(x uint64, d int64) uint64 {
	s := x & (1 << (f.E + f.M))
	m := int64(x &^ (1 << (f.E + f.M)))
	m += d
	if m < 0 {
		m = -m
	}
	lim := int64(f.Inf(0))
	if m > lim {
		m = lim
	}
	return s | uint64(m)
}

// ---------------------------------------------------------------- generators

type Gen struct {
	*rand.Rand
	F Fmt
}

func NewGen(seed int64, f Fmt) *Gen { return &Gen{rand.New(rand.NewSource(seed)), f} }

// Man generates a mantissa field (M bits) with structure.
func (g *Gen) Man() uint64 {
	M := g.F.M
	mask := uint64(1)<<M - 1
	switch g.Intn(12) {
	case 0:
		return 0
	case 1:
		return mask
	case 2:
		return 1 << uint(g.Intn(int(M)))
	case 3:
		return mask ^ 1<<uint(g.Intn(int(M)))
	case 4: // leading ones
		return mask &^ (1<<uint(g.Intn(int(M)+1)) - 1)
	case 5: // trailing ones
		return 1<<uint(g.Intn(int(M)+1)) - 1
	case 6: // random with trailing zeros
		return g.Uint64() & mask &^ (1<<uint(g.Intn(int(M)+1)) - 1)
	case 7: // small
		return g.Uint64() & (1<<uint(1+g.Intn(8)) - 1)
	case 8: // random top, run of ones or zeros, small tail
		k := uint(g.Intn(int(M)))
		v := g.Uint64() & mask
		if g.Intn(2) == 0 {
			v |= 1<<k - 1
		} else {
			v &^= 1<<k - 1
		}
		return (v + uint64(g.Intn(3)) - 1) & mask
	default:
		return g.Uint64() & mask
	}
}

// Exp generates a biased exponent (never the abnormal one).
func (g *Gen) Exp() uint64 {
	E := g.F.E
	max := int64(1)<<E - 2
	bias := int64(1)<<(E-1) - 1
	switch g.Intn(10) {
	case 0:
		return 0
	case 1:
		return uint64(1 + g.Intn(int(g.F.M)+4))
	case 2:
		return uint64(max - int64(g.Intn(int(g.F.M)+4)))
	case 3, 4:
		return uint64(bias + int64(g.Intn(2*int(g.F.M)+8)) - int64(g.F.M) - 4)
	case 5:
		return uint64(bias + int64(g.Intn(5)) - 2)
	case 6: // around half the range: products hit the limits
		return uint64(bias/2 + int64(g.Intn(9)) - 4)
	case 7:
		return uint64(bias + bias/2 + int64(g.Intn(9)) - 4)
	default:
		return uint64(g.Int63n(max + 1))
	}
}

// Special returns one of the special encodings.
func (g *Gen) Special() uint64 {
	f := g.F
	s := uint64(g.Intn(2))
	switch g.Intn(12) {
	case 0, 1:
		return f.Pack(s, 0, 0)
	case 2, 3:
		return f.Inf(s)
	case 4:
		return f.Pack(s, f.expMask(), 1<<(f.M-1))
	case 5:
		return f.Pack(s, f.expMask(), 1)
	case 6:
		return f.Pack(s, f.expMask(), 1+g.Uint64()%f.manMask())
	case 7:
		return f.Pack(s, 0, 1)
	case 8:
		return f.Pack(s, 0, f.manMask())
	case 9:
		return f.Pack(s, 1, 0)
	case 10:
		return f.Pack(s, f.expMask()-1, f.manMask())
	default:
		return f.Of(float64(g.Intn(7)-3) / 2)
	}
}

// Any generates any encoding.
func (g *Gen) Any() uint64 {
	if g.Intn(12) == 0 {
		return g.Special()
	}
	return g.Finite()
}

func (g *Gen) Finite() uint64 {
	f := g.F
	s := uint64(g.Intn(2))
	switch g.Intn(8) {
	case 0: // subnormal with random leading position
		k := uint(g.Intn(int(f.M)))
		return f.Pack(s, 0, g.Man()&(1<<(k+1)-1)|1<<k)
	default:
		return f.Pack(s, g.Exp(), g.Man())
	}
}

// WithExp generates a finite number with the given unbiased exponent clamped to the range.
func (g *Gen) WithExp(e int64) uint64 {
	f := g.F
	b := e + f.EMax() - 1
	if b < 0 {
		b = 0
	}
	if b > int64(f.expMask())-1 {
		b = int64(f.expMask()) - 1
	}
	return f.Pack(uint64(g.Intn(2)), uint64(b), g.Man())
}

// Pair generates two operands with structure relating them.
func (g *Gen) Pair() (x, y uint64) {
	f := g.F
	M := int64(f.M)
	switch g.Intn(18) {
	case 0:
		return g.Special(), g.Special()
	case 1:
		if g.Intn(2) == 0 {
			return g.Special(), g.Any()
		}
		return g.Any(), g.Special()
	case 2: // same magnitude, either sign
		x = g.Any()
		y = x
		if g.Intn(2) == 0 {
			y = f.Neg(x)
		}
		return
	case 3: // neighbours
		x = g.Finite()
		y = f.Step(x, int64(g.Intn(7))-3)
		if g.Intn(2) == 0 {
			y = f.Neg(y)
		}
		return
	case 4, 5, 6: // every exponent difference that matters
		x = g.Finite()
		_, e, _ := f.Unpack(x)
		y = g.WithExp(int64(e) - (f.EMax() - 1) + int64(g.Intn(int(2*M+11))) - M - 5)
		return
	case 7: // sum is an exact tie or next to one
		x = g.Finite()
		_, e, _ := f.Unpack(x)
		d := M + 1
		if g.Intn(3) == 0 {
			d = M + int64(g.Intn(4))
		}
		eb := int64(e) - d
		if eb < 0 {
			eb = 0
		}
		m := uint64(0)
		switch g.Intn(3) {
		case 1:
			m = 1
		case 2:
			m = f.manMask()
		}
		y = f.Pack(uint64(g.Intn(2)), uint64(eb), m)
		return
	case 8: // product near the underflow threshold
		x = g.Finite()
		_, e, _ := f.Unpack(x)
		ex := int64(e) - (f.EMax() - 1)
		y = g.WithExp(f.ENormMin() - ex - int64(g.Intn(int(M)+6)) + 2)
		return
	case 9: // product near the overflow threshold
		x = g.Finite()
		_, e, _ := f.Unpack(x)
		ex := int64(e) - (f.EMax() - 1)
		y = g.WithExp(f.EMax() - ex - int64(g.Intn(4)))
		return
	case 10: // quotient near the underflow threshold
		x = g.Finite()
		_, e, _ := f.Unpack(x)
		ex := int64(e) - (f.EMax() - 1)
		y = g.WithExp(ex - f.ENormMin() + int64(g.Intn(int(M)+6)) - 2)
		return
	case 11: // quotient near the overflow threshold
		x = g.Finite()
		_, e, _ := f.Unpack(x)
		ex := int64(e) - (f.EMax() - 1)
		y = g.WithExp(ex - f.EMax() + int64(g.Intn(4)))
		return
	case 12: // short mantissas: exact products, quotients and ties
		x, y = g.Finite(), g.Finite()
		k := uint(f.M) / 2
		if g.Intn(2) == 0 {
			k = uint(g.Intn(int(f.M)))
		}
		x = x &^ (1<<k - 1)
		k2 := f.M - k
		if k2 > 0 && g.Intn(2) == 0 {
			k2--
		}
		y = y &^ (1<<k2 - 1)
		return
	case 13: // x = q*y rounded, so that x/y is near q with few bits
		y = g.Finite()
		q := f.Of(float64(1 + g.Intn(1<<uint(1+g.Intn(12)))))
		x = f.Mul(y, q)
		if g.Intn(2) == 0 {
			x = f.Step(x, int64(g.Intn(3))-1)
		}
		return
	case 15, 16: // exact result in the middle of two subnormal numbers, or next to it
		// bits of the result: a times b (product), or a where x = a*b and y = b
		k := 1 + g.Intn(int(M)+1)
		a := g.Uint64()>>(64-uint(k)) | 1
		b := g.Uint64()>>(64-uint(1+g.Intn(int(M)+2-k))) | 1
		t := f.ENormMin() - M - 1 - int64(g.Intn(8)/6) // half of the smallest number, or less
		div := g.Intn(2) == 0
		if div {
			x, y = a*b, b
		} else {
			x, y = a, b
		}
		// any split of the exponent that leaves both operands in the range
		for try := 0; try < 20; try++ {
			ey := f.ENormMin() + g.Int63n(f.EMax()-f.ENormMin()) - M
			ex := t - ey
			if div {
				ex = t + ey
			}
			bx, ok1 := f.Exact(x, ex)
			by, ok2 := f.Exact(y, ey)
			if !ok1 || !ok2 {
				continue
			}
			if g.Intn(4) == 0 {
				bx = f.Step(bx, int64(g.Intn(3))-1)
			}
			if g.Intn(2) == 0 {
				bx = f.Neg(bx)
			}
			if g.Intn(2) == 0 {
				by = f.Neg(by)
			}
			return bx, by
		}
		return g.Any(), g.Any()
	case 14: // both at the extremes
		x, y = g.Finite(), g.Finite()
		_, _, mx := f.Unpack(x)
		_, _, my := f.Unpack(y)
		pick := func() uint64 {
			switch g.Intn(3) {
			case 0:
				return uint64(g.Intn(3))
			case 1:
				return f.expMask() - 1 - uint64(g.Intn(3))
			}
			return g.Exp()
		}
		return f.Pack(uint64(g.Intn(2)), pick(), mx), f.Pack(uint64(g.Intn(2)), pick(), my)
	default:
		return g.Any(), g.Any()
	}
}

// Exact encodes n*2^e if it is a number of the format.
func (f Fmt) Exact(n uint64, e int64) (uint64, bool) {
	if n == 0 {
		return 0, true
	}
	for n&1 == 0 {
		n >>= 1
		e++
	}
	l := int64(bits.Len64(n))
	top := e + l - 1
	if l > int64(f.M)+1 || top >= f.EMax() || e < f.ENormMin()-int64(f.M) {
		return 0, false
	}
	if top < f.ENormMin() {
		return f.Pack(0, 0, n<<uint(e-(f.ENormMin()-int64(f.M)))), true
	}
	return f.Pack(0, uint64(top+f.EMax()-1), n<<uint(int64(f.M)+1-l)), true
}

// Int generates numbers around integers, for rounding operations.
func (g *Gen) Roundish() uint64 {
	f := g.F
	M := int64(f.M)
	switch g.Intn(8) {
	case 0:
		return g.Special()
	case 1:
		return g.Any()
	case 2: // integer +- few steps
		k := uint(g.Intn(int(f.M) + 2))
		v := f.Of(float64(g.Int63n(1<<k + 1)))
		v = f.Step(v, int64(g.Intn(5))-2)
		if g.Intn(2) == 0 {
			v = f.Neg(v)
		}
		return v
	case 3: // half integers
		v := f.Of(float64(g.Int63n(1<<uint(1+g.Intn(20)))) + 0.5)
		v = f.Step(v, int64(g.Intn(3))-1)
		if g.Intn(2) == 0 {
			v = f.Neg(v)
		}
		return v
	case 4:
		return g.WithExp(int64(g.Intn(3)) - 1)
	default:
		return g.WithExp(int64(g.Intn(int(M)+8)) - 4)
	}
}

// Square generates operands whose square root is exact, or next to that.
func (g *Gen) Square() uint64 {
	f := g.F
	switch g.Intn(8) {
	case 0:
		return g.Any()
	case 1:
		return g.Special()
	case 6, 7:
		return g.hardSqrt()
	case 2, 3:
		k := uint(1 + g.Intn(int(f.M)/2+2))
		n := float64(1+g.Int63n(1<<k)) * math.Ldexp(1, g.Intn(41)-20)
		v := f.Of(n * n)
		return f.Step(v, int64(g.Intn(5))-2)
	default:
		return f.Abs(g.Finite())
	}
}

// hardSqrt generates operands whose root lies next to the middle of two
// neighbouring numbers: x near (n+1/2)^2 with n of M+1 bits.
func (g *Gen) hardSqrt() uint64 {
	f := g.F
	n := new(big.Int).SetUint64(1<<f.M | g.Man())
	n.Lsh(n, 1)
	n.Add(n, big.NewInt(1)) // 2n+1, the middle times two
	n.Mul(n, n)             // 2M+4 or 2M+5 bits
	sh := uint(n.BitLen()) - (f.M + 1)
	q := new(big.Int).Rsh(n, sh)
	m := q.Uint64() + uint64(g.Intn(3)) - 1
	// value = m * 2^sh (times any power of four)
	e := int64(f.M) + int64(sh)
	t := g.Int63n(2*int64(f.EMax())-2) + 2 - int64(f.EMax())
	e = t - (t-e)&1
	for m>>(f.M+1) != 0 {
		m >>= 1
		e++
	}
	b := e + f.EMax() - 1
	if m>>f.M == 0 || b < 1 || b >= int64(f.expMask()) {
		return f.Abs(g.Finite())
	}
	return f.Pack(0, uint64(b), m)
}

// Patterns lists mantissa fields that exercise carries, ties and sticky bits.
func (f Fmt) Patterns() []uint64 {
	k := f.manMask()
	h := uint64(1) << (f.M - 1)
	l := []uint64{0, 1, 2, 3, k, k - 1, k - 2, h, h - 1, h + 1, h | 1, h >> 1, h | h>>1, k &^ h, 0x5555555555555555 & k, 0xaaaaaaaaaaaaaaaa & k,
		k &^ (1<<(f.M/2) - 1), 1<<(f.M/2) - 1, 1 << (f.M / 2), 0x0123456789abcdef & k, 0x6a09e667f3bcc908 & k}
	seen := map[uint64]bool{}
	var r []uint64
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

// Near lists encodings around every exponent boundary of the format: for each
// biased exponent the smallest, second and largest mantissas, both signs.
func (f Fmt) Near(yield func(b uint64)) {
	for e := uint64(0); e <= f.expMask(); e++ {
		for _, m := range []uint64{0, 1, f.manMask() >> 1, f.manMask()>>1 + 1, f.manMask()} {
			for s := uint64(0); s < 2; s++ {
				yield(f.Pack(s, e, m))
			}
		}
	}
}
