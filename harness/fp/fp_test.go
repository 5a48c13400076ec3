package fp

import (
	"math"
	"testing"
)

// the generic path must agree with the hardware: run binary32 through it
func TestGeneric(t *testing.T) {
	for _, f := range []Fmt{F16, BF16} {
		for b := uint64(0); b < 1<<f.Bits(); b++ {
			v := f.Val(b)
			if !f.Same(f.Of(v), b) {
				t.Fatal(f, b, v)
			}
		}
	}
	// bf16 == truncated f32 with RNE
	g := NewGen(1, F32)
	for i := 0; i < 1000000; i++ {
		b := uint32(g.Any())
		v := math.Float32frombits(b)
		if v != v {
			continue
		}
		r := b + 0x7fff + (b >> 16 & 1)
		if got := BF16.Of(float64(v)); got != uint64(r>>16) {
			t.Fatalf("%x %x %x", b, got, r>>16)
		}
	}
	h := NewGen(2, F64)
	n := 0
	for i := 0; i < 100000; i++ {
		x := h.hardSqrt()
		_ = x
		if h.F.Val(x) > 0 {
			n++
		}
	}
	t.Log(n)
}
