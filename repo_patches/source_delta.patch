From 63f4d8f7af3e1c012a4219084291ebfacc5ab6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 01/21] fix: bound the result of a power-of-two query tightly

QueryPowerOf2 looks up exponent || result, packed into one field element, but
only checked result loosely. When the limb width does not divide the table's
value width, a prover could choose a result with a carry into the exponent and
match another row of the table, e.g. prove that a product is 0.
---
 gadget/gadget.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index 5bb8a2e..213a961 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -125,8 +125,10 @@ func (f *IntGadget) QueryPowerOf2(exponent frontend.Variable) frontend.Variable
 		panic(err)
 	}
 	result := outputs[0]
-	// Make sure the result is small
-	f.AssertBitLength(result, uint(len(f.pow2.entries)), Loose)
+	// Make sure the result has at most `len(f.pow2.entries)` bits, and not just as many bits as
+	// fit in a whole number of limbs. Otherwise, `exponent || result` could also be decomposed
+	// as `i || 2^i` for another `i`, with the difference carried in the upper bits of `result`.
+	f.AssertBitLength(result, uint(len(f.pow2.entries)), TightForUnknownRange)
 	// Compute `exponent || result` and add it to the list of queries
 	f.pow2.queries = append(f.pow2.queries, []frontend.Variable{f.api.Add(
 		f.api.Mul(exponent, new(big.Int).Lsh(big.NewInt(1), uint(len(f.pow2.entries)))),
-- 
2.43.0


From 460717dc44b4f7c324df96dce2b45c6f0c8e165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 02/21] fix: make the sign returned for zero unique

Abs and IsPositive let the prover choose the sign of 0, since 0 == -0. With
this freedom, Trunc(-1.25) could be proven to be 0, Floor(-1.25) to be -1, and
an overflowing result to be finite.
---
 gadget/gadget.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index 213a961..fb7e8a6 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -90,7 +90,8 @@ func (f *IntGadget) Abs(v frontend.Variable, length uint) (frontend.Variable, fr
 		v,
 		f.api.Neg(v),
 	)
-	f.AssertBitLength(abs, length, Loose)
+	// Subtracting 1 if `v` is claimed to be negative makes `is_positive` unique when `v` is 0.
+	f.AssertBitLength(f.api.Sub(abs, f.api.Sub(big.NewInt(1), is_positive)), length, Loose)
 	return abs, is_positive
 }
 
-- 
2.43.0


From 30862185821df3c625a36c9759ccf2fcf1551f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 03/21] fix: make the sign of an exact zero sum unique

The sign of the mantissa is a hint that is not constrained when the operands
cancel, so x - x could be proven to be -0.
---
 float/float.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/float/float.go b/float/float.go
index 3977898..e300178 100644
--- a/float/float.go
+++ b/float/float.go
@@ -570,10 +570,12 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 	// `mantissa_ge_0` can be directly used to determine the sign of the result, except for the case
 	// `-0 + -0`. Therefore, we first check whether the signs of `x` and `y` are the same. If so,
 	// we use `x`'s sign as the sign of the result. Otherwise, we use the negation of `mantissa_ge_0`.
+	// In the latter case, the sign of an exact zero is always positive, while `mantissa_ge_0` is not
+	// constrained if `s` is 0.
 	sign := f.Api.Select(
 		f.Gadget.IsEq(x.Sign, y.Sign),
 		x.Sign,
-		mantissa_lt_0,
+		f.Api.And(mantissa_lt_0, mantissa_is_not_zero),
 	)
 
 	mantissa = f.round(
-- 
2.43.0


From 851ec7b872e2d48ee45bf85a4550504a1b3e958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 04/21] fix: x - x is 0 in the topmost binade

The exponent of a sum starts at the larger exponent plus 1, which is not
reduced if the operands cancel. For finite operands with the largest exponent,
the result was infinity instead of 0.
---
 float/float.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/float/float.go b/float/float.go
index e300178..da26a2e 100644
--- a/float/float.go
+++ b/float/float.go
@@ -565,7 +565,13 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 		gadget.TightForSmallAbs,
 	)
 	// Decrement the exponent by `shift`.
-	exponent = f.Api.Sub(exponent, shift)
+	// If the mantissa is zero, `shift` is meaningless, and we set the exponent to 0's exponent, so that the
+	// sum of `x` and `-x` does not overflow even if the exponent of `x` is `E_MAX - 1`.
+	exponent = f.Api.Select(
+		mantissa_is_zero,
+		f.E_MIN,
+		f.Api.Sub(exponent, shift),
+	)
 
 	// `mantissa_ge_0` can be directly used to determine the sign of the result, except for the case
 	// `-0 + -0`. Therefore, we first check whether the signs of `x` and `y` are the same. If so,
-- 
2.43.0


From d6363057553a5e4dc5750bcbeb3b78ac36875194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 05/21] fix: allow circuits without power-of-two queries

The lookup argument for an empty set of queries can be compiled but not
proven, so a circuit using only range checks or comparisons had no proof.
---
 gadget/gadget.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index fb7e8a6..8592676 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -31,6 +31,10 @@ func NewPowersOfTwoTable(api frontend.API, size uint) *PowersOfTwo {
 }
 
 func (t *PowersOfTwo) commit(api frontend.API) error {
+	// The lookup argument needs at least one query.
+	if len(t.queries) == 0 {
+		return nil
+	}
 	return logderivarg.Build(api, t.entries, t.queries)
 }
 
-- 
2.43.0


From 395ca90fe257b370557faab02d9f0c42dea39b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 06/21] fix: disjunction with a constant operand under PLONK

gnark's scs builder constrains a|1 to 0 when a is a wire, so adding a finite
constant to an infinity, dividing by a constant zero or comparing with a
constant NaN had wrong results there.
---
 float/float.go   | 36 ++++++++++++++++++------------------
 gadget/gadget.go | 11 +++++++++++
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/float/float.go b/float/float.go
index da26a2e..723a2d2 100644
--- a/float/float.go
+++ b/float/float.go
@@ -282,10 +282,10 @@ func (f *Context) fixOverflow(
 	exponent = f.Api.Add(exponent, mantissa_overflow)
 	// Check if exponent overflows. If so, the result is abnormal.
 	// Also, if the input is already abnormal, the result is of course abnormal.
-	is_abnormal := f.Api.Or(f.Gadget.IsPositive(f.Api.Sub(exponent, f.E_MAX), f.E+1), input_is_abnormal)
+	is_abnormal := f.Gadget.Or(f.Gadget.IsPositive(f.Api.Sub(exponent, f.E_MAX), f.E+1), input_is_abnormal)
 
 	return f.Api.Select(
-			f.Api.Or(mantissa_overflow, is_abnormal),
+			f.Gadget.Or(mantissa_overflow, is_abnormal),
 			// If mantissa overflows, we right shift the mantissa by 1 and obtain `2^M`.
 			// If the result is abnormal, we set the mantissa to infinity's mantissa.
 			// We can combine both cases as inifinity's mantissa is `2^M`.
@@ -308,7 +308,7 @@ func (f *Context) fixOverflow(
 
 // Enforce the equality between two numbers.
 func (f *Context) AssertIsEqual(x, y FloatVar) {
-	is_nan := f.Api.Or(
+	is_nan := f.Gadget.Or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -328,7 +328,7 @@ func (f *Context) AssertIsEqual(x, y FloatVar) {
 
 // Enforce the equality between two numbers, relaxed to checking ULP <1 (optimized)
 func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
-	is_nan := f.Api.Or(
+	is_nan := f.Gadget.Or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -345,7 +345,7 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 	// x.e == y.e && (x.m == y.m + 1 || y.m == x.m + 1) ,
 	cmpOne := f.Api.And(
 		f.Gadget.IsEq(x.Exponent, y.Exponent),
-		f.Api.Or(
+		f.Gadget.Or(
 			f.Gadget.IsEq(x.Mantissa, f.Api.Add(y.Mantissa, big.NewInt(1))),
 			f.Gadget.IsEq(y.Mantissa, f.Api.Add(x.Mantissa, big.NewInt(1))),
 		),
@@ -369,7 +369,7 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 		),
 	)
 
-	cmp := f.Api.Or(cmpOne, f.Api.Or(cmpTwo, cmpThree))
+	cmp := f.Gadget.Or(cmpOne, f.Gadget.Or(cmpTwo, cmpThree))
 
 	condOne := f.Gadget.IsEq(cmp, 1)
 
@@ -379,12 +379,12 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.Gadget.Or(condOne, condTwo), 1)
 }
 
 // Enforce the equality between two numbers, relaxed to checking ULP <X
 func (f *Context) AssertIsEqualOrCustomULP32(x, y FloatVar, ulp float32) {
-	is_nan := f.Api.Or(
+	is_nan := f.Gadget.Or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -410,12 +410,12 @@ func (f *Context) AssertIsEqualOrCustomULP32(x, y FloatVar, ulp float32) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.Gadget.Or(condOne, condTwo), 1)
 }
 
 // Enforce the equality between two numbers, relaxed to checking ULP <X
 func (f *Context) AssertIsEqualOrCustomULP64(x, y FloatVar, ulp float64) {
-	is_nan := f.Api.Or(
+	is_nan := f.Gadget.Or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -441,7 +441,7 @@ func (f *Context) AssertIsEqualOrCustomULP64(x, y FloatVar, ulp float64) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.Gadget.Or(condOne, condTwo), 1)
 }
 
 // Add two numbers.
@@ -606,7 +606,7 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 		mantissa,
 		mantissa_is_zero,
 		exponent,
-		f.Api.Or(x.IsAbnormal, y.IsAbnormal),
+		f.Gadget.Or(x.IsAbnormal, y.IsAbnormal),
 	)
 
 	y_is_not_abnormal := f.Api.Sub(big.NewInt(1), y.IsAbnormal)
@@ -626,7 +626,7 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 			x.IsAbnormal,
 			// If `x` is abnormal ...
 			f.Api.Select(
-				f.Api.Or(
+				f.Gadget.Or(
 					y_is_not_abnormal,
 					f.Gadget.IsEq(xx, yy),
 				),
@@ -739,7 +739,7 @@ func (f *Context) Mul(x, y FloatVar) FloatVar {
 	)
 
 	mantissa_is_zero := f.Api.IsZero(mantissa)
-	input_is_abnormal := f.Api.Or(x.IsAbnormal, y.IsAbnormal)
+	input_is_abnormal := f.Gadget.Or(x.IsAbnormal, y.IsAbnormal)
 	mantissa, exponent, is_abnormal := f.fixOverflow(
 		mantissa,
 		mantissa_is_zero,
@@ -842,13 +842,13 @@ func (f *Context) Div(x, y FloatVar) FloatVar {
 	// If `y` is NaN, the result is NaN.
 	// Since both zero and NaN have mantissa 0, we can combine both cases and set the mantissa to 0
 	// when `y` is abnormal.
-	mantissa_is_zero := f.Api.Or(f.Api.IsZero(mantissa), y.IsAbnormal)
+	mantissa_is_zero := f.Gadget.Or(f.Api.IsZero(mantissa), y.IsAbnormal)
 
 	mantissa, exponent, is_abnormal := f.fixOverflow(
 		mantissa,
 		mantissa_is_zero,
 		exponent,
-		f.Api.Or(x.IsAbnormal, y_is_zero),
+		f.Gadget.Or(x.IsAbnormal, y_is_zero),
 	)
 
 	return FloatVar{
@@ -936,7 +936,7 @@ func (f *Context) Sqrt(x FloatVar) FloatVar {
 	// If `x` is NaN, the result is NaN.
 	// If `x` is +infinty, the result is +infinity.
 	// Below we combine all these cases.
-	is_abnormal := f.Api.Or(
+	is_abnormal := f.Gadget.Or(
 		f.Api.And(x.Sign, n_is_not_zero),
 		x.IsAbnormal,
 	)
@@ -970,7 +970,7 @@ func (f *Context) less(x, y FloatVar, allow_eq uint) frontend.Variable {
 	xm_ge_ym := f.Gadget.IsPositive(f.Api.Sub(x.Mantissa, y.Mantissa), f.M+1)
 
 	b := f.Api.Select(
-		f.Api.Or(
+		f.Gadget.Or(
 			f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 			f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 		),
diff --git a/gadget/gadget.go b/gadget/gadget.go
index 8592676..e89098a 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -124,6 +124,17 @@ func (f *IntGadget) IsEq(a, b frontend.Variable) frontend.Variable {
 	return f.api.IsZero(f.api.Sub(a, b))
 }
 
+// Or returns `a | b`. A constant 1 is handled here, because gnark's PLONK builder constrains
+// `a | 1` to 0 if `a` is not a constant.
+func (f *IntGadget) Or(a, b frontend.Variable) frontend.Variable {
+	for _, v := range []frontend.Variable{a, b} {
+		if c, ok := f.api.Compiler().ConstantValue(v); ok && c.IsUint64() && c.Uint64() == 1 {
+			return big.NewInt(1)
+		}
+	}
+	return f.api.Or(a, b)
+}
+
 func (f *IntGadget) QueryPowerOf2(exponent frontend.Variable) frontend.Variable {
 	outputs, err := f.api.Compiler().NewHint(hint.PowerOfTwoHint, 1, exponent)
 	if err != nil {
-- 
2.43.0


From b8e93f871dbb807f379fd68639d463c8a0acde9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 07/21] fix: reject out of range exponents instead of crashing
 the prover

Converting 0.5 to an integer asked the hint for 2^(p-1), which panicked in the
solver instead of failing the proof.
---
 hint/hint.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hint/hint.go b/hint/hint.go
index 89e2b82..c5a35d1 100644
--- a/hint/hint.go
+++ b/hint/hint.go
@@ -1,6 +1,7 @@
 package hint
 
 import (
+	"fmt"
 	"github.com/tumberger/zk-Location/util"
 	"math"
 	"math/big"
@@ -126,6 +127,10 @@ func NthBitHint(field *big.Int, inputs []*big.Int, outputs []*big.Int) error {
 }
 
 func PowerOfTwoHint(field *big.Int, inputs []*big.Int, outputs []*big.Int) error {
+	// A power of two that does not fit in the field cannot satisfy the circuit.
+	if !inputs[0].IsUint64() || inputs[0].Uint64() >= uint64(field.BitLen()) {
+		return fmt.Errorf("exponent %v out of range", inputs[0])
+	}
 	outputs[0].Lsh(big.NewInt(1), uint(inputs[0].Uint64()))
 	return nil
 }
-- 
2.43.0


From 22c98f4948e6a9d37cbeed5d5f2b05113e53b1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:25 +0000
Subject: [PATCH 08/21] fix: tangent hint within one ULP of the check

---
 hint/hint.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hint/hint.go b/hint/hint.go
index c5a35d1..9cf7bf8 100644
--- a/hint/hint.go
+++ b/hint/hint.go
@@ -33,9 +33,11 @@ func PrecomputeHint64(field *big.Int, inputs []*big.Int, outputs []*big.Int) err
 	components := util.ComponentsOf(v, uint64(E), uint64(M))
 	value := util.ComponentsToF64(components)
 
-	alpha := math.Tan(value * 0.5)
 	gamma := math.Sin(value * 0.5)
 	delta := math.Cos(value * 0.5)
+	// The tangent is checked as `alpha * delta == gamma` up to one ULP, which the
+	// quotient always satisfies, whereas `math.Tan` may be off by more.
+	alpha := gamma / delta
 	beta := 2 * gamma * delta
 
 	alpha_components := util.F64ToComponents(alpha)
-- 
2.43.0


From 3dea76cca46e587da4d301c38d52c7c551d6a864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:25 +0000
Subject: [PATCH 09/21] fix: locate points at the center of a face

---
 loc2index32/loc2index32.go | 3 +++
 loc2index64/loc2index64.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/loc2index32/loc2index32.go b/loc2index32/loc2index32.go
index a9688a8..1347ab1 100644
--- a/loc2index32/loc2index32.go
+++ b/loc2index32/loc2index32.go
@@ -123,6 +123,9 @@ func calculateHex2d(
 	cosAz := f.Select(isClassIII, cosAzimuthRot, cosAzimuth)
 
 	z := f.Sqrt(f.Add(f.Mul(x, x), f.Mul(y, y)))
+	// At the center of the face the azimuth is undefined and `r` is 0: divide by 1
+	// instead of 0, so that the hex coordinates are 0 and not NaN.
+	z = f.Select(f.Api.IsZero(z.Mantissa), f.NewF32Constant(1.0), z)
 
 	sinP := f.Div(y, z)
 	cosP := f.Div(x, z)
diff --git a/loc2index64/loc2index64.go b/loc2index64/loc2index64.go
index 74e0451..b4d8cbe 100644
--- a/loc2index64/loc2index64.go
+++ b/loc2index64/loc2index64.go
@@ -124,6 +124,9 @@ func calculateHex2d(
 	cosAz := f.Select(isClassIII, cosAzimuthRot, cosAzimuth)
 
 	z := f.Sqrt(f.Add(f.Mul(x, x), f.Mul(y, y)))
+	// At the center of the face the azimuth is undefined and `r` is 0: divide by 1
+	// instead of 0, so that the hex coordinates are 0 and not NaN.
+	z = f.Select(f.Api.IsZero(z.Mantissa), f.NewF64Constant(1.0), z)
 
 	sinP := f.Div(y, z)
 	cosP := f.Div(x, z)
-- 
2.43.0


From f19ea12b2869d6bc617b1cb6dab24b4526898a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 10/21] fix: arctangent of infinities and NaN

---
 math/math.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/math/math.go b/math/math.go
index c928393..dcea565 100644
--- a/math/math.go
+++ b/math/math.go
@@ -62,7 +62,6 @@ func Atan2(f *float.Context, y, x float.FloatVar) float.FloatVar {
 
 	pi := f.NewF64Constant(math.Pi)
 
-	// TODO: Check if zero, do not divide by 0
 	quotient := f.Div(y, x)
 	result := AtanRemez64(f, quotient)
 
@@ -78,13 +77,12 @@ func Atan2(f *float.Context, y, x float.FloatVar) float.FloatVar {
 		Sign:       atan2S,
 		Exponent:   atan2E,
 		Mantissa:   atan2M,
-		IsAbnormal: 0,
+		IsAbnormal: result.IsAbnormal,
 	}
 
-	// TODO: Zero handling -- see below:
 	// if x=0 AND y>0: atan2 = pi/2
 	// if x=0 AND y<0: atan2 = -pi/2
-	// if x=0 AND y=0: atan2 = undefined
+	// if x=0 AND y=0: atan2 = undefined (NaN)
 
 	return ret
 }
@@ -128,7 +126,7 @@ func AtanRemez64(f *float.Context, x float.FloatVar) float.FloatVar {
 
 	sign := x.Sign
 	x.Sign = 0
-	// TODO: Proper abnormal handling, check that x isn't 0 and act accordingly if x=0
+	// TODO: check that x isn't 0 and act accordingly if x=0
 
 	// Approximate atan by atan(x) = pi/2 - atan(1/x) if x>1
 	greaterOne := f.IsGt(x, oneConst)
@@ -136,6 +134,8 @@ func AtanRemez64(f *float.Context, x float.FloatVar) float.FloatVar {
 
 	x.Exponent = f.Api.Select(greaterOne, reciprocal.Exponent, x.Exponent)
 	x.Mantissa = f.Api.Select(greaterOne, reciprocal.Mantissa, x.Mantissa)
+	// The reciprocal of a number greater than 1, infinity included, is a number
+	x.IsAbnormal = f.Api.Select(greaterOne, 0, x.IsAbnormal)
 
 	// Create a Polynomial from the coefficients
 	p := Polynomial(coefficient)
@@ -151,7 +151,7 @@ func AtanRemez64(f *float.Context, x float.FloatVar) float.FloatVar {
 		Sign:       sign,
 		Exponent:   resultE,
 		Mantissa:   resultM,
-		IsAbnormal: 0,
+		IsAbnormal: x.IsAbnormal,
 	}
 	return res
 }
@@ -182,7 +182,7 @@ func AtanRemez32(f *float.Context, x float.FloatVar) float.FloatVar {
 
 	sign := x.Sign
 	x.Sign = 0
-	// TODO: Proper abnormal handling, check that x isn't 0 and act accordingly if x=0
+	// TODO: check that x isn't 0 and act accordingly if x=0
 
 	// Approximate atan by atan(x) = pi/2 - atan(1/x) if x>1
 	greaterOne := f.IsGt(x, oneConst)
@@ -190,6 +190,8 @@ func AtanRemez32(f *float.Context, x float.FloatVar) float.FloatVar {
 
 	x.Exponent = f.Api.Select(greaterOne, reciprocal.Exponent, x.Exponent)
 	x.Mantissa = f.Api.Select(greaterOne, reciprocal.Mantissa, x.Mantissa)
+	// The reciprocal of a number greater than 1, infinity included, is a number
+	x.IsAbnormal = f.Api.Select(greaterOne, 0, x.IsAbnormal)
 
 	// Create a Polynomial from the coefficients
 	p := Polynomial(coefficient)
@@ -205,7 +207,7 @@ func AtanRemez32(f *float.Context, x float.FloatVar) float.FloatVar {
 		Sign:       sign,
 		Exponent:   resultE,
 		Mantissa:   resultM,
-		IsAbnormal: 0,
+		IsAbnormal: x.IsAbnormal,
 	}
 	return res
 }
-- 
2.43.0


From a4b0e4c51a3957ce0f8acdecb6789f6c29e33f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 11/21] fix: benchmarks fail if the Groth16 proof does not
 verify

---
 util/util.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/util/util.go b/util/util.go
index bc0b627..c20435b 100644
--- a/util/util.go
+++ b/util/util.go
@@ -518,7 +518,8 @@ func BenchProof(b *testing.B, circuit, assignment frontend.Circuit) {
 
 		publicWitness, _ := fullWitness.Public()
 
-		groth16.Verify(proof, vk, publicWitness)
+		err = groth16.Verify(proof, vk, publicWitness)
+		require.NoError(b, err)
 	}
 }
 
@@ -588,7 +589,7 @@ func BenchProofToFileGroth16(b *testing.B, circuit, assignment frontend.Circuit,
 		// Verifier step with time measurement
 		start = time.Now().UnixMicro()
 		publicWitness, _ := fullWitness.Public()
-		groth16.Verify(proof, vk, publicWitness)
+		err = groth16.Verify(proof, vk, publicWitness)
 		if err != nil {
 			b.Errorf("Failed in verifying: %v", err)
 			return err
@@ -744,7 +745,11 @@ func BenchProofMemoryGroth16(b *testing.B, circuit, assignment frontend.Circuit)
 	}
 
 	publicWitness, _ := fullWitness.Public()
-	groth16.Verify(proof, vk, publicWitness)
+	err = groth16.Verify(proof, vk, publicWitness)
+	if err != nil {
+		b.Errorf("Failed in verifying: %v", err)
+		return err
+	}
 
 	return nil
 }
-- 
2.43.0


From a13382e761e1d80bd143301b9404276e9ae6880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 12/21] fix: benchmarks fail instead of crashing on an invalid
 assignment

---
 util/util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/util/util.go b/util/util.go
index c20435b..6e14a69 100644
--- a/util/util.go
+++ b/util/util.go
@@ -565,6 +565,10 @@ func BenchProofToFileGroth16(b *testing.B, circuit, assignment frontend.Circuit,
 		fmt.Println("Number of constraints:", cs.GetNbConstraints())
 
 		fullWitness, err := frontend.NewWitness(assignment, ecc.BN254.ScalarField())
+		if err != nil {
+			b.Errorf("Failed Full Witness: %v", err)
+			return err
+		}
 
 		// Setup step with time measurement
 		start = time.Now().UnixMicro()
@@ -650,6 +654,10 @@ func BenchProofToFilePlonk(b *testing.B, circuit, assignment frontend.Circuit, r
 		fmt.Println("Number of constraints:", ccs.GetNbConstraints())
 
 		fullWitness, err := frontend.NewWitness(assignment, ecc.BN254.ScalarField())
+		if err != nil {
+			b.Errorf("Failed Full Witness: %v", err)
+			return err
+		}
 
 		// create srs
 		srs, srsLagrange, err := unsafekzg.NewSRS(ccs)
-- 
2.43.0


From 96c438c0c1e2160c165a40db72bb80a6ddd3109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 13/21] fix: read negative coordinates of cell boundaries

---
 proximity/proximity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 71201cc..57b391a 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -148,7 +148,7 @@ func cellToBoundary(h3Index string) ([][2]float64, error) {
 		return nil, err
 	}
 
-	pattern := regexp.MustCompile(`(\d+\.\d+)\s+(\d+\.\d+)`)
+	pattern := regexp.MustCompile(`(-?\d+\.\d+)\s+(-?\d+\.\d+)`)
 	matches := pattern.FindAllStringSubmatch(string(output), -1)
 
 	var boundary [][2]float64
-- 
2.43.0


From 5b2f62332b0738850ab225dd5d8823a4b6c2137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 14/21] fix: distance between antipodal points

---
 proximity/proximity.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 57b391a..162d522 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -23,6 +23,8 @@ func OldHaversine(lat1, lon1, lat2, lon2 float64) float64 {
 	dLat := degreesToRadians(lat2 - lat1)
 	dLon := degreesToRadians(lon2 - lon1)
 	a := math.Pow(math.Sin(dLat/2), 2) + math.Cos(degreesToRadians(lat1))*math.Cos(degreesToRadians(lat2))*math.Pow(math.Sin(dLon/2), 2)
+	// Rounding can push a above 1 for antipodal points
+	a = math.Min(a, 1)
 	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
 	return RadiusOfEarth * c
 }
-- 
2.43.0


From 5fcea7334c15b631571d58cc31adf9ef77c50326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 15/21] fix: PLONK benchmarks report a failing SRS instead of
 crashing

---
 util/util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 6e14a69..cd69030 100644
--- a/util/util.go
+++ b/util/util.go
@@ -663,7 +663,8 @@ func BenchProofToFilePlonk(b *testing.B, circuit, assignment frontend.Circuit, r
 		srs, srsLagrange, err := unsafekzg.NewSRS(ccs)
 		fmt.Println(reflect.TypeOf(srs))
 		if err != nil {
-			panic("Failed to create srs: " + err.Error())
+			b.Errorf("Failed to create srs: %v", err)
+			return err
 		}
 
 		// Setup step with time measurement
@@ -777,6 +778,10 @@ func BenchProofMemoryPlonk(b *testing.B, circuit, assignment frontend.Circuit) e
 	}
 
 	srs, srsLagrange, err := unsafekzg.NewSRS(ccs)
+	if err != nil {
+		b.Errorf("Failed to create srs: %v", err)
+		return err
+	}
 
 	pk, vk, err := plonk.Setup(ccs, srs, srsLagrange)
 	if err != nil {
-- 
2.43.0


From 123b7b8b64f30cf24d44a6da7cba5b289bdbdc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 16/21] fix: derivative step of the Remez script above the
 rounding noise

---
 scripts/generate_remez_coefficients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/generate_remez_coefficients.py b/scripts/generate_remez_coefficients.py
index da0c003..d10abf3 100644
--- a/scripts/generate_remez_coefficients.py
+++ b/scripts/generate_remez_coefficients.py
@@ -25,7 +25,7 @@ def bisection_search(f, low: float, high: float):
 
 def concave_max(f, low: float, high: float):
     scale = high - low
-    h = mp.mpf('0.' + ''.join(['0' for i in range(int(mp.dps / 1.5))]) + '1') * scale
+    h = mp.mpf('0.' + ''.join(['0' for i in range(int(mp.dps / 3))]) + '1') * scale
     df = lambda x: (f(x + h) - f(x - h)) / (2.0 * h)
 
     return bisection_search(df, low, high)
-- 
2.43.0


From a630df68a40fa1f33a8bf9d458356f2d9b394924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 17/21] fix: the Remez script assumed the error is largest at
 the ends of the interval

---
 scripts/generate_remez_coefficients.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/scripts/generate_remez_coefficients.py b/scripts/generate_remez_coefficients.py
index d10abf3..11d76ac 100644
--- a/scripts/generate_remez_coefficients.py
+++ b/scripts/generate_remez_coefficients.py
@@ -67,8 +67,15 @@ def remez(func, n_degree: int, lower: float = -1, upper: float = 1, max_iter: in
         extermum_interval = [[intervals[i], intervals[i + 1]] for i in range(len(intervals) - 1)]
         extremums = [concave_max(r_i, *i) for i in extermum_interval]
 
-        extremums[0] = mp.mpf(upper)
-        extremums[-1] = mp.mpf(lower)
+        # The error may be larger at the ends of the interval, or alternate once more
+        # there: then the smaller outermost extremum is left out
+        for end, inner, bound in ((0, 1, mp.mpf(upper)), (-1, -2, mp.mpf(lower))):
+            if r_i(bound) * r_i(extremums[inner]) > 0:
+                extremums.insert(len(extremums) if end else 0, bound)
+            elif abs(r_i(bound)) > abs(r_i(extremums[end])):
+                extremums[end] = bound
+        while len(extremums) > n_degree + 2:
+            extremums.pop(0 if abs(r_i(extremums[0])) < abs(r_i(extremums[-1])) else -1)
 
         errors = [abs(r_i(i)) for i in extremums]
         mean_error = numpy.mean(errors)
-- 
2.43.0


From 2ebe87d3538e485653f634edfcb256fb857bace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 18/21] fix: report a boundary without vertices as an error

The proximity program took the answer of cellToBoundary for a boundary
without vertices if it could not be read, and reported the largest
float as the distance.
---
 proximity/proximity.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 162d522..177a24b 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -172,6 +172,10 @@ func cellToBoundary(h3Index string) ([][2]float64, error) {
 		boundary = append(boundary, [2]float64{lat, lng})
 	}
 
+	if len(boundary) == 0 {
+		return nil, fmt.Errorf("failed to parse boundary")
+	}
+
 	return boundary, nil
 }
 
-- 
2.43.0


From 8acc84726485ef205abc8f3f4fa6044f824dce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:16 +0000
Subject: [PATCH 19/21] fix: evaluate single precision reference values at the
 input as stored

---
 data/generate_test_math.py       | 2 ++
 data/generate_test_polynomial.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/data/generate_test_math.py b/data/generate_test_math.py
index a7b80e7..4f99fbe 100644
--- a/data/generate_test_math.py
+++ b/data/generate_test_math.py
@@ -62,6 +62,8 @@ def generate_test_values(n, function, float_type='float64'):
     test_values = []
     for i in range(n):
         x = generate_random_float(i, float_type)
+        if float_type == 'float32':
+            x = float(np.float32(x))  # The input as it is stored
         result = function(x)
 
         if float_type == 'float32':
diff --git a/data/generate_test_polynomial.py b/data/generate_test_polynomial.py
index 57b732c..28d87bf 100644
--- a/data/generate_test_polynomial.py
+++ b/data/generate_test_polynomial.py
@@ -21,6 +21,7 @@ def generate_test_values(n, function, float_type='float64'):
 
     for _ in range(n):
         x = random.uniform(-100, 100)  # Generate a random float between -100 and 100
+        x = struct.unpack(pack_format, struct.pack(pack_format, x))[0]  # The input as it is stored
         result = function(x)
 
         x_hex = struct.unpack(unpack_format, struct.pack(pack_format, x))[0]
-- 
2.43.0


From 842ae43ebe463b5ac8c2cf3690f2155c7baedf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:16 +0000
Subject: [PATCH 20/21] fix: read the minus signs of cell boundaries in the
 location generator

---
 data/generate_test_loc2index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/generate_test_loc2index.py b/data/generate_test_loc2index.py
index ebfdf45..22c8163 100644
--- a/data/generate_test_loc2index.py
+++ b/data/generate_test_loc2index.py
@@ -48,7 +48,7 @@ def cell_to_boundary(h3_index):
     cmd = ["../h3-master/build/bin/cellToBoundary", "--index", h3_index]
     output = execute_command(cmd)
     
-    pattern = r"(\d+\.\d+)\s+(\d+\.\d+)"
+    pattern = r"(-?\d+\.\d+)\s+(-?\d+\.\d+)"
     return re.findall(pattern, output)
 
 def haversine(lat1, lon1, lat2, lon2):
-- 
2.43.0


From c1283e71e5835a97140241abde33a5eb12f32477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:41 +0000
Subject: [PATCH 21/21] fix: read the outcomes of the 64 bit tests for their
 row of the table

---
 scripts/generate_latex_table_tests.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/generate_latex_table_tests.py b/scripts/generate_latex_table_tests.py
index a6d26ec..9886ae1 100644
--- a/scripts/generate_latex_table_tests.py
+++ b/scripts/generate_latex_table_tests.py
@@ -9,7 +9,7 @@ def read_test_cases(file_path):
                 test_cases[resolution] = test_cases.get(resolution, 0) + 1
     return test_cases
 
-def read_test_results(file_path, test_cases):
+def read_test_results(file_path, test_cases, test_name):
     test_results = {res: ['green'] * count for res, count in test_cases.items()}
     current_test = 0
     current_resolution = 0
@@ -20,7 +20,7 @@ def read_test_results(file_path, test_cases):
             if skip_lines > 0:
                 skip_lines -= 1
                 continue
-            if "--- PASS: TestLoc2Index32/bn254" in line:
+            if f"--- PASS: {test_name}/bn254" in line:
                 skip_lines = 2  # Skip the next two lines for a pass case'
                 current_test += 1
                 if current_test == test_cases[current_resolution]:
@@ -28,7 +28,7 @@ def read_test_results(file_path, test_cases):
                     current_resolution += 1
                     # continue
 
-            elif "--- FAIL: TestLoc2Index32/" in line:
+            elif f"--- FAIL: {test_name}/" in line:
                 current_test += 1
                 test_results[current_resolution][current_test-1] = 'red'
                 if current_test == test_cases[current_resolution]:
@@ -104,11 +104,11 @@ test_casesP12 = read_test_cases('../data/f32/loc2index32.txt')
 test_P12 = read_test_results_P6('../benchmarks/tests/loc2index_P12_G16_BN254.txt', test_casesP12)
 
 test_cases32 = read_test_cases('../data/f32/loc2index32.txt')
-test_results32 = read_test_results('../benchmarks/tests/loc2index32_g16_bn254.txt', test_cases32)
+test_results32 = read_test_results('../benchmarks/tests/loc2index32_g16_bn254.txt', test_cases32, 'TestLoc2Index32')
 
 # print(test_results32)
 test_cases64 = read_test_cases('../data/f64/loc2index64.txt')
-test_results64 = read_test_results('../benchmarks/tests/loc2index64_g16_bn254.txt', test_cases32)
+test_results64 = read_test_results('../benchmarks/tests/loc2index64_g16_bn254.txt', test_cases64, 'TestLoc2Index64')
 latex_table = generate_latex_table(test_P6, test_P12, test_results32, test_results64)
 print(latex_table)
 
-- 
2.43.0

