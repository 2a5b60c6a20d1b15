From 7c167b0719dadfa30c7673e04d17613e69446935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 01/10] fix: zero result of large operands (x - x) overflowed
 to infinity

---
 float/float.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/float/float.go b/float/float.go
index 3977898..96d015d 100644
--- a/float/float.go
+++ b/float/float.go
@@ -280,6 +280,14 @@ func (f *Context) fixOverflow(
 	mantissa_overflow := f.Gadget.IsEq(mantissa, new(big.Int).Lsh(big.NewInt(1), f.M+1))
 	// If mantissa overflows, we need to increment the exponent
 	exponent = f.Api.Add(exponent, mantissa_overflow)
+	// If the result is 0, we set the exponent to 0's exponent.
+	// This should be done before checking overflow, as otherwise a zero result computed from large
+	// inputs (e.g., `x - x`) would be regarded as infinity.
+	exponent = f.Api.Select(
+		mantissa_is_zero,
+		f.E_MIN,
+		exponent,
+	)
 	// Check if exponent overflows. If so, the result is abnormal.
 	// Also, if the input is already abnormal, the result is of course abnormal.
 	is_abnormal := f.Api.Or(f.Gadget.IsPositive(f.Api.Sub(exponent, f.E_MAX), f.E+1), input_is_abnormal)
@@ -296,13 +304,8 @@ func (f *Context) fixOverflow(
 			is_abnormal,
 			// If the result is abnormal, we set the exponent to infinity/NaN's exponent.
 			f.E_MAX,
-			f.Api.Select(
-				mantissa_is_zero,
-				// If the result is 0, we set the exponent to 0's exponent.
-				f.E_MIN,
-				// Otherwise, return the original exponent.
-				exponent,
-			),
+			// Otherwise, return the original exponent.
+			exponent,
 		), is_abnormal
 }
 
-- 
2.43.0


From 7aab0233b0aa162c5d73d200f97e180b4f6739f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 02/10] fix: circuits that never query the powers-of-two table
 were unsatisfiable

---
 gadget/gadget.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index 5bb8a2e..0ecd5d2 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -31,6 +31,10 @@ func NewPowersOfTwoTable(api frontend.API, size uint) *PowersOfTwo {
 }
 
 func (t *PowersOfTwo) commit(api frontend.API) error {
+	// The lookup argument cannot be built without queries.
+	if len(t.queries) == 0 {
+		return nil
+	}
 	return logderivarg.Build(api, t.entries, t.queries)
 }
 
-- 
2.43.0


From 36e836db469e6aca1a3a89595fe92f5bbb74385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 03/10] fix: disjunction with a constant was evaluated to 0 on
 PLONK

---
 float/float.go   | 36 ++++++++++++++++++------------------
 gadget/gadget.go | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/float/float.go b/float/float.go
index 96d015d..684e843 100644
--- a/float/float.go
+++ b/float/float.go
@@ -290,10 +290,10 @@ func (f *Context) fixOverflow(
 	)
 	// Check if exponent overflows. If so, the result is abnormal.
 	// Also, if the input is already abnormal, the result is of course abnormal.
-	is_abnormal := f.Api.Or(f.Gadget.IsPositive(f.Api.Sub(exponent, f.E_MAX), f.E+1), input_is_abnormal)
+	is_abnormal := f.Gadget.Or(f.Gadget.IsPositive(f.Api.Sub(exponent, f.E_MAX), f.E+1), input_is_abnormal)
 
 	return f.Api.Select(
-			f.Api.Or(mantissa_overflow, is_abnormal),
+			f.Gadget.Or(mantissa_overflow, is_abnormal),
 			// If mantissa overflows, we right shift the mantissa by 1 and obtain `2^M`.
 			// If the result is abnormal, we set the mantissa to infinity's mantissa.
 			// We can combine both cases as inifinity's mantissa is `2^M`.
@@ -311,7 +311,7 @@ func (f *Context) fixOverflow(
 
 // Enforce the equality between two numbers.
 func (f *Context) AssertIsEqual(x, y FloatVar) {
-	is_nan := f.Api.Or(
+	is_nan := f.Gadget.Or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -331,7 +331,7 @@ func (f *Context) AssertIsEqual(x, y FloatVar) {
 
 // Enforce the equality between two numbers, relaxed to checking ULP <1 (optimized)
 func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
-	is_nan := f.Api.Or(
+	is_nan := f.Gadget.Or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -348,7 +348,7 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 	// x.e == y.e && (x.m == y.m + 1 || y.m == x.m + 1) ,
 	cmpOne := f.Api.And(
 		f.Gadget.IsEq(x.Exponent, y.Exponent),
-		f.Api.Or(
+		f.Gadget.Or(
 			f.Gadget.IsEq(x.Mantissa, f.Api.Add(y.Mantissa, big.NewInt(1))),
 			f.Gadget.IsEq(y.Mantissa, f.Api.Add(x.Mantissa, big.NewInt(1))),
 		),
@@ -372,7 +372,7 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 		),
 	)
 
-	cmp := f.Api.Or(cmpOne, f.Api.Or(cmpTwo, cmpThree))
+	cmp := f.Gadget.Or(cmpOne, f.Gadget.Or(cmpTwo, cmpThree))
 
 	condOne := f.Gadget.IsEq(cmp, 1)
 
@@ -382,12 +382,12 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.Gadget.Or(condOne, condTwo), 1)
 }
 
 // Enforce the equality between two numbers, relaxed to checking ULP <X
 func (f *Context) AssertIsEqualOrCustomULP32(x, y FloatVar, ulp float32) {
-	is_nan := f.Api.Or(
+	is_nan := f.Gadget.Or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -413,12 +413,12 @@ func (f *Context) AssertIsEqualOrCustomULP32(x, y FloatVar, ulp float32) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.Gadget.Or(condOne, condTwo), 1)
 }
 
 // Enforce the equality between two numbers, relaxed to checking ULP <X
 func (f *Context) AssertIsEqualOrCustomULP64(x, y FloatVar, ulp float64) {
-	is_nan := f.Api.Or(
+	is_nan := f.Gadget.Or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -444,7 +444,7 @@ func (f *Context) AssertIsEqualOrCustomULP64(x, y FloatVar, ulp float64) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.Gadget.Or(condOne, condTwo), 1)
 }
 
 // Add two numbers.
@@ -601,7 +601,7 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 		mantissa,
 		mantissa_is_zero,
 		exponent,
-		f.Api.Or(x.IsAbnormal, y.IsAbnormal),
+		f.Gadget.Or(x.IsAbnormal, y.IsAbnormal),
 	)
 
 	y_is_not_abnormal := f.Api.Sub(big.NewInt(1), y.IsAbnormal)
@@ -621,7 +621,7 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 			x.IsAbnormal,
 			// If `x` is abnormal ...
 			f.Api.Select(
-				f.Api.Or(
+				f.Gadget.Or(
 					y_is_not_abnormal,
 					f.Gadget.IsEq(xx, yy),
 				),
@@ -734,7 +734,7 @@ func (f *Context) Mul(x, y FloatVar) FloatVar {
 	)
 
 	mantissa_is_zero := f.Api.IsZero(mantissa)
-	input_is_abnormal := f.Api.Or(x.IsAbnormal, y.IsAbnormal)
+	input_is_abnormal := f.Gadget.Or(x.IsAbnormal, y.IsAbnormal)
 	mantissa, exponent, is_abnormal := f.fixOverflow(
 		mantissa,
 		mantissa_is_zero,
@@ -837,13 +837,13 @@ func (f *Context) Div(x, y FloatVar) FloatVar {
 	// If `y` is NaN, the result is NaN.
 	// Since both zero and NaN have mantissa 0, we can combine both cases and set the mantissa to 0
 	// when `y` is abnormal.
-	mantissa_is_zero := f.Api.Or(f.Api.IsZero(mantissa), y.IsAbnormal)
+	mantissa_is_zero := f.Gadget.Or(f.Api.IsZero(mantissa), y.IsAbnormal)
 
 	mantissa, exponent, is_abnormal := f.fixOverflow(
 		mantissa,
 		mantissa_is_zero,
 		exponent,
-		f.Api.Or(x.IsAbnormal, y_is_zero),
+		f.Gadget.Or(x.IsAbnormal, y_is_zero),
 	)
 
 	return FloatVar{
@@ -931,7 +931,7 @@ func (f *Context) Sqrt(x FloatVar) FloatVar {
 	// If `x` is NaN, the result is NaN.
 	// If `x` is +infinty, the result is +infinity.
 	// Below we combine all these cases.
-	is_abnormal := f.Api.Or(
+	is_abnormal := f.Gadget.Or(
 		f.Api.And(x.Sign, n_is_not_zero),
 		x.IsAbnormal,
 	)
@@ -965,7 +965,7 @@ func (f *Context) less(x, y FloatVar, allow_eq uint) frontend.Variable {
 	xm_ge_ym := f.Gadget.IsPositive(f.Api.Sub(x.Mantissa, y.Mantissa), f.M+1)
 
 	b := f.Api.Select(
-		f.Api.Or(
+		f.Gadget.Or(
 			f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 			f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 		),
diff --git a/gadget/gadget.go b/gadget/gadget.go
index 0ecd5d2..789387a 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -123,6 +123,24 @@ func (f *IntGadget) IsEq(a, b frontend.Variable) frontend.Variable {
 	return f.api.IsZero(f.api.Sub(a, b))
 }
 
+// Compute the disjunction of two boolean values.
+// Constants are handled here instead of in gnark, since gnark's PLONK builder evaluates `a || 1`
+// (where `a` is not a constant) to 0.
+func (f *IntGadget) Or(a, b frontend.Variable) frontend.Variable {
+	if _, ok := f.api.Compiler().ConstantValue(a); ok {
+		a, b = b, a
+	}
+	if c, ok := f.api.Compiler().ConstantValue(b); ok {
+		f.api.AssertIsBoolean(a)
+		f.api.AssertIsBoolean(b)
+		if c.Sign() == 0 {
+			return a
+		}
+		return big.NewInt(1)
+	}
+	return f.api.Or(a, b)
+}
+
 func (f *IntGadget) QueryPowerOf2(exponent frontend.Variable) frontend.Variable {
 	outputs, err := f.api.Compiler().NewHint(hint.PowerOfTwoHint, 1, exponent)
 	if err != nil {
-- 
2.43.0


From a3d6ba05b8372800933ce32376c7459443f2bffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 04/10] fix: a prover could claim that 0 is negative in
 IntGadget.Abs

---
 gadget/gadget.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index 789387a..569b5f4 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -94,7 +94,9 @@ func (f *IntGadget) Abs(v frontend.Variable, length uint) (frontend.Variable, fr
 		v,
 		f.api.Neg(v),
 	)
-	f.AssertBitLength(abs, length, Loose)
+	// If `v` is negative, we check the range of `|v| - 1` instead of `|v|`. Otherwise, a malicious prover
+	// could claim that `v = 0` is negative.
+	f.AssertBitLength(f.api.Sub(abs, f.api.Sub(big.NewInt(1), is_positive)), length, Loose)
 	return abs, is_positive
 }
 
-- 
2.43.0


From 388a19ae12f2ede2e30799acedf9561b5cdf7b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 05/10] fix: a prover could forge powers of two if range_size
 does not divide the table size

---
 gadget/gadget.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index 569b5f4..3cd2830 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -149,8 +149,9 @@ func (f *IntGadget) QueryPowerOf2(exponent frontend.Variable) frontend.Variable
 		panic(err)
 	}
 	result := outputs[0]
-	// Make sure the result is small
-	f.AssertBitLength(result, uint(len(f.pow2.entries)), Loose)
+	// Make sure the result is small. This check has to be tight, as otherwise the result could carry into
+	// the exponent, i.e., `e || (k << len + 2^(e + k)) == (e + k) || 2^(e + k)`.
+	f.AssertBitLength(result, uint(len(f.pow2.entries)), TightForSmallAbs)
 	// Compute `exponent || result` and add it to the list of queries
 	f.pow2.queries = append(f.pow2.queries, []frontend.Variable{f.api.Add(
 		f.api.Mul(exponent, new(big.Int).Lsh(big.NewInt(1), uint(len(f.pow2.entries)))),
-- 
2.43.0


From ac29c8688bb31e6c2f361f8affd4000178dba9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 06/10] fix: a prover could choose the sign of an exact zero
 sum

---
 float/float.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/float/float.go b/float/float.go
index 684e843..3164bde 100644
--- a/float/float.go
+++ b/float/float.go
@@ -572,11 +572,12 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 
 	// `mantissa_ge_0` can be directly used to determine the sign of the result, except for the case
 	// `-0 + -0`. Therefore, we first check whether the signs of `x` and `y` are the same. If so,
-	// we use `x`'s sign as the sign of the result. Otherwise, we use the negation of `mantissa_ge_0`.
+	// we use `x`'s sign as the sign of the result. Otherwise, we use the negation of `mantissa_ge_0`,
+	// unless the mantissa is zero, in which case `mantissa_ge_0` is not unique and the result is `+0`.
 	sign := f.Api.Select(
 		f.Gadget.IsEq(x.Sign, y.Sign),
 		x.Sign,
-		mantissa_lt_0,
+		f.Api.And(mantissa_lt_0, mantissa_is_not_zero),
 	)
 
 	mantissa = f.round(
-- 
2.43.0


From be0f9073ac25c74bc3c8f94231c5cc305e3385fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 07/10] fix: locate a point at the center of a face

calculateHex2d divided by the (zero) length of the bearing vector, so that a
location rounding to the center of an icosahedron face had no valid witness.
---
 loc2index32/loc2index32.go | 3 +++
 loc2index64/loc2index64.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/loc2index32/loc2index32.go b/loc2index32/loc2index32.go
index a9688a8..3067373 100644
--- a/loc2index32/loc2index32.go
+++ b/loc2index32/loc2index32.go
@@ -123,6 +123,9 @@ func calculateHex2d(
 	cosAz := f.Select(isClassIII, cosAzimuthRot, cosAzimuth)
 
 	z := f.Sqrt(f.Add(f.Mul(x, x), f.Mul(y, y)))
+	// At the center of the face the bearing is undefined: x = y = z = 0. Dividing by 1 instead
+	// of 0 then yields the origin of the plane, instead of `NaN`.
+	z = f.Select(f.Api.IsZero(z.Mantissa), f.NewF32Constant(1.0), z)
 
 	sinP := f.Div(y, z)
 	cosP := f.Div(x, z)
diff --git a/loc2index64/loc2index64.go b/loc2index64/loc2index64.go
index 74e0451..4b8c9ef 100644
--- a/loc2index64/loc2index64.go
+++ b/loc2index64/loc2index64.go
@@ -124,6 +124,9 @@ func calculateHex2d(
 	cosAz := f.Select(isClassIII, cosAzimuthRot, cosAzimuth)
 
 	z := f.Sqrt(f.Add(f.Mul(x, x), f.Mul(y, y)))
+	// At the center of the face the bearing is undefined: x = y = z = 0. Dividing by 1 instead
+	// of 0 then yields the origin of the plane, instead of `NaN`.
+	z = f.Select(f.Api.IsZero(z.Mantissa), f.NewF64Constant(1.0), z)
 
 	sinP := f.Div(y, z)
 	cosP := f.Div(x, z)
-- 
2.43.0


From 66f6a2320e5fa471948b7c9df4a1b9677e71c4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 08/10] fix: arctangent of infinite and undefined data

AtanRemez32/64 replaced exponent and mantissa of an argument beyond 1 by those of
its reciprocal but kept the abnormal flag, and results were always marked normal,
so that atan(+-inf), and Atan2 on the y axis (y / 0) or with an overflowing
quotient, gave a bogus number around 2^1024 instead of +-pi/2; NaN likewise.
---
 math/math.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/math/math.go b/math/math.go
index c928393..fc23c56 100644
--- a/math/math.go
+++ b/math/math.go
@@ -73,12 +73,13 @@ func Atan2(f *float.Context, y, x float.FloatVar) float.FloatVar {
 	atan2S := f.Api.Select(x.Sign, f.Api.Select(y.Sign, subPi.Sign, addPi.Sign), result.Sign)
 	atan2E := f.Api.Select(x.Sign, f.Api.Select(y.Sign, subPi.Exponent, addPi.Exponent), result.Exponent)
 	atan2M := f.Api.Select(x.Sign, f.Api.Select(y.Sign, subPi.Mantissa, addPi.Mantissa), result.Mantissa)
+	atan2A := f.Api.Select(x.Sign, f.Api.Select(y.Sign, subPi.IsAbnormal, addPi.IsAbnormal), result.IsAbnormal)
 
 	ret := float.FloatVar{
 		Sign:       atan2S,
 		Exponent:   atan2E,
 		Mantissa:   atan2M,
-		IsAbnormal: 0,
+		IsAbnormal: atan2A,
 	}
 
 	// TODO: Zero handling -- see below:
@@ -136,6 +137,7 @@ func AtanRemez64(f *float.Context, x float.FloatVar) float.FloatVar {
 
 	x.Exponent = f.Api.Select(greaterOne, reciprocal.Exponent, x.Exponent)
 	x.Mantissa = f.Api.Select(greaterOne, reciprocal.Mantissa, x.Mantissa)
+	x.IsAbnormal = f.Api.Select(greaterOne, reciprocal.IsAbnormal, x.IsAbnormal)
 
 	// Create a Polynomial from the coefficients
 	p := Polynomial(coefficient)
@@ -147,11 +149,12 @@ func AtanRemez64(f *float.Context, x float.FloatVar) float.FloatVar {
 
 	resultE := f.Api.Select(greaterOne, sub.Exponent, result.Exponent)
 	resultM := f.Api.Select(greaterOne, sub.Mantissa, result.Mantissa)
+	resultA := f.Api.Select(greaterOne, sub.IsAbnormal, result.IsAbnormal)
 	res := float.FloatVar{
 		Sign:       sign,
 		Exponent:   resultE,
 		Mantissa:   resultM,
-		IsAbnormal: 0,
+		IsAbnormal: resultA,
 	}
 	return res
 }
@@ -190,6 +193,7 @@ func AtanRemez32(f *float.Context, x float.FloatVar) float.FloatVar {
 
 	x.Exponent = f.Api.Select(greaterOne, reciprocal.Exponent, x.Exponent)
 	x.Mantissa = f.Api.Select(greaterOne, reciprocal.Mantissa, x.Mantissa)
+	x.IsAbnormal = f.Api.Select(greaterOne, reciprocal.IsAbnormal, x.IsAbnormal)
 
 	// Create a Polynomial from the coefficients
 	p := Polynomial(coefficient)
@@ -201,11 +205,12 @@ func AtanRemez32(f *float.Context, x float.FloatVar) float.FloatVar {
 
 	resultE := f.Api.Select(greaterOne, sub.Exponent, result.Exponent)
 	resultM := f.Api.Select(greaterOne, sub.Mantissa, result.Mantissa)
+	resultA := f.Api.Select(greaterOne, sub.IsAbnormal, result.IsAbnormal)
 	res := float.FloatVar{
 		Sign:       sign,
 		Exponent:   resultE,
 		Mantissa:   resultM,
-		IsAbnormal: 0,
+		IsAbnormal: resultA,
 	}
 	return res
 }
-- 
2.43.0


From a74ce6f63131074532677ae00f06af2695376555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 09/10] fix: keep the signs of boundary coordinates

---
 proximity/proximity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 71201cc..57b391a 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -148,7 +148,7 @@ func cellToBoundary(h3Index string) ([][2]float64, error) {
 		return nil, err
 	}
 
-	pattern := regexp.MustCompile(`(\d+\.\d+)\s+(\d+\.\d+)`)
+	pattern := regexp.MustCompile(`(-?\d+\.\d+)\s+(-?\d+\.\d+)`)
 	matches := pattern.FindAllStringSubmatch(string(output), -1)
 
 	var boundary [][2]float64
-- 
2.43.0


From a4d4cdae69d1318bfe7cc20627aef0dddffcf629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 10/10] fix: distance of antipodal points is not NaN

---
 proximity/proximity.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 57b391a..99145f1 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -23,6 +23,7 @@ func OldHaversine(lat1, lon1, lat2, lon2 float64) float64 {
 	dLat := degreesToRadians(lat2 - lat1)
 	dLon := degreesToRadians(lon2 - lon1)
 	a := math.Pow(math.Sin(dLat/2), 2) + math.Cos(degreesToRadians(lat1))*math.Cos(degreesToRadians(lat2))*math.Pow(math.Sin(dLon/2), 2)
+	a = math.Min(1, a) // rounding may exceed 1 for antipodal points
 	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
 	return RadiusOfEarth * c
 }
-- 
2.43.0

