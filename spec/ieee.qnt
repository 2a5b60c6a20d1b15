// Reference semantics of binary floating point (IEEE 754-2019), parametric in the
// exponent width E and the stored-mantissa width M.  Everything is exact integer /
// rational arithmetic over unbounded integers; numbers are named by their encoding
// (an integer of 1+E+M bits).  This module is the oracle of every float property.
module ieee {
  pure def pow2(k: int): int = 2^k

  // number of bits of n >= 0  (0 for n = 0)
  pure def bitLen(n: int): int =
    if (n == 0) 0 else {
      pure val r = [2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1].foldl({ v: n, b: 0 }, (acc, k) =>
        if (acc.v >= 2^k) { v: acc.v / (2^k), b: acc.b + k } else acc)
      r.b + 1
    }

  pure def absI(x: int): int = if (x < 0) -x else x
  pure def maxI(a: int, b: int): int = if (a >= b) a else b
  pure def minI(a: int, b: int): int = if (a <= b) a else b
  // floor division for d > 0 (Quint's / truncates towards zero)
  pure def fdiv(n: int, d: int): int =
    if (n >= 0) n / d else -((-n + d - 1) / d)
  pure def fmod(n: int, d: int): int = n - d * fdiv(n, d)
  pure def isOdd(n: int): bool = n % 2 != 0

  // floor of the square root (Newton from above; 12 steps cover 2048-bit operands after bitLen start)
  pure def isqrt(n: int): int =
    if (n == 0) 0 else {
      pure val start = 2^((bitLen(n) + 1) / 2)
      pure val r = range(0, 12).foldl(start, (x, _) => {
        pure val y = (x + n / x) / 2
        if (y < x) y else x
      })
      r
    }

  // ---- formats -----------------------------------------------------------------
  pure def width(E: int, M: int): int = 1 + E + M
  pure def bias(E: int): int = 2^(E - 1) - 1
  pure def eMax(E: int): int = 2^(E - 1)              // exponent of Inf/NaN
  pure def eNormMin(E: int): int = 2 - 2^(E - 1)      // smallest normal exponent
  pure def eZero(E: int, M: int): int = eNormMin(E) - (M + 1)  // library's exponent of zero
  pure def infBits(E: int, M: int, s: int): int = s * 2^(E + M) + (2^E - 1) * 2^M
  pure def nanBits(E: int, M: int): int = (2^E - 1) * 2^M + 2^(M - 1)
  pure def maxFinite(E: int, M: int, s: int): int = infBits(E, M, s) - 1

  pure def signOf(E: int, M: int, v: int): int = v / 2^(E + M)
  pure def expField(E: int, M: int, v: int): int = (v / 2^M) % 2^E
  pure def manField(M: int, v: int): int = v % 2^M
  pure def magOf(E: int, M: int, v: int): int = v % 2^(E + M)

  pure def isNaN(E: int, M: int, v: int): bool = magOf(E, M, v) > (2^E - 1) * 2^M
  pure def isInf(E: int, M: int, v: int): bool = magOf(E, M, v) == (2^E - 1) * 2^M
  pure def isZero(E: int, M: int, v: int): bool = magOf(E, M, v) == 0
  pure def isFin(E: int, M: int, v: int): bool = magOf(E, M, v) < (2^E - 1) * 2^M
  pure def isSubnormal(E: int, M: int, v: int): bool =
    expField(E, M, v) == 0 and manField(M, v) != 0

  // |v| = sig * 2^quantum for finite v
  pure def sig(E: int, M: int, v: int): int =
    if (expField(E, M, v) == 0) manField(M, v) else manField(M, v) + 2^M
  pure def quantum(E: int, M: int, v: int): int =
    maxI(expField(E, M, v), 1) - bias(E) - M

  // ---- canonical in-circuit form -------------------------------------------------
  // (sign, exponent, mantissa, abnormal): the documented internal representation
  type Canon = { s: int, e: int, m: int, a: int }
  pure def canon(E: int, M: int, v: int): Canon = {
    pure val s = signOf(E, M, v)
    if (isNaN(E, M, v)) { s: s, e: eMax(E), m: 0, a: 1 }
    else if (isInf(E, M, v)) { s: s, e: eMax(E), m: 2^M, a: 1 }
    else if (isZero(E, M, v)) { s: s, e: eZero(E, M), m: 0, a: 0 }
    else {
      pure val g = sig(E, M, v)
      pure val sh = M + 1 - bitLen(g)
      { s: s, e: quantum(E, M, v) + M - sh, m: g * 2^sh, a: 0 }
    }
  }
  pure def isCanonical(E: int, M: int, c: Canon): bool = or {
    and { c.a == 1, c.e == eMax(E), or { c.m == 0, c.m == 2^M }, or { c.s == 0, c.s == 1 } },
    and { c.a == 0, c.m == 0, c.e == eZero(E, M), or { c.s == 0, c.s == 1 } },
    and { c.a == 0, c.m >= 2^M, c.m < 2^(M + 1), c.e < eMax(E), c.e > eZero(E, M),
          or { c.s == 0, c.s == 1 },
          // a subnormal keeps its precision: the low (eNormMin - e) bits are 0
          if (c.e < eNormMin(E)) c.m % 2^(eNormMin(E) - c.e) == 0 else true }
  }
  pure def encode(E: int, M: int, c: Canon): int =
    if (c.a == 1) { if (c.m == 0) nanBits(E, M) else infBits(E, M, c.s) }
    else if (c.m == 0) c.s * 2^(E + M)
    else {
      pure val g = if (c.e < eNormMin(E)) c.m / 2^(eNormMin(E) - c.e) else c.m
      if (c.e < eNormMin(E)) c.s * 2^(E + M) + g
      else c.s * 2^(E + M) + (c.e + bias(E)) * 2^M + (c.m - 2^M)
    }

  // ---- rounding ------------------------------------------------------------------
  // round-to-nearest, ties-to-even, of the exact positive rational n/d * 2^x
  pure def rne(E: int, M: int, s: int, n: int, d: int, x: int): int =
    if (n == 0) s * 2^(E + M)
    else {
      // 2^e <= n/d*2^x < 2^(e+1)
      pure val k = bitLen(n) - bitLen(d)      // n/d in (2^(k-1), 2^(k+1))
      pure val ge = if (k >= 0) n >= d * 2^k else n * 2^(-k) >= d
      pure val e = (if (ge) k else k - 1) + x
      pure val q = maxI(e, eNormMin(E)) - M
      pure val sh = x - q
      pure val nn = if (sh >= 0) n * 2^sh else n
      pure val dd = if (sh >= 0) d else d * 2^(-sh)
      pure val t = nn / dd
      pure val r2 = 2 * (nn - t * dd)
      pure val t2 = if (r2 > dd or (r2 == dd and isOdd(t))) t + 1 else t
      // t2 <= 2^(M+1); the encoding's carry into the exponent is the right one
      pure val mag = if (t2 < 2^M) t2 else (q - (eNormMin(E) - M) + 1) * 2^M + (t2 - 2^M)
      if (mag >= infBits(E, M, 0)) infBits(E, M, s) else s * 2^(E + M) + mag
    }

  // signed exact value with common quantum
  pure def sval(E: int, M: int, v: int): int =
    if (signOf(E, M, v) == 1) -sig(E, M, v) else sig(E, M, v)

  // ---- operations ----------------------------------------------------------------
  pure def fneg(E: int, M: int, a: int): int = (a + 2^(E + M)) % 2^(1 + E + M)
  pure def fabs(E: int, M: int, a: int): int = magOf(E, M, a)

  pure def fadd(E: int, M: int, a: int, b: int): int =
    if (isNaN(E, M, a) or isNaN(E, M, b)) nanBits(E, M)
    else if (isInf(E, M, a)) {
      if (isInf(E, M, b) and signOf(E, M, a) != signOf(E, M, b)) nanBits(E, M) else a
    }
    else if (isInf(E, M, b)) b
    else {
      pure val q = minI(quantum(E, M, a), quantum(E, M, b))
      pure val n = sval(E, M, a) * 2^(quantum(E, M, a) - q) + sval(E, M, b) * 2^(quantum(E, M, b) - q)
      if (n == 0) {
        // exact zero: sign is that of the operands if they agree, + otherwise
        if (signOf(E, M, a) == 1 and signOf(E, M, b) == 1) 2^(E + M) else 0
      }
      else rne(E, M, if (n < 0) 1 else 0, absI(n), 1, q)
    }
  pure def fsub(E: int, M: int, a: int, b: int): int = fadd(E, M, a, fneg(E, M, b))

  pure def xorS(E: int, M: int, a: int, b: int): int =
    if (signOf(E, M, a) == signOf(E, M, b)) 0 else 1

  pure def fmul(E: int, M: int, a: int, b: int): int =
    if (isNaN(E, M, a) or isNaN(E, M, b)) nanBits(E, M)
    else if (isInf(E, M, a) or isInf(E, M, b)) {
      if (isZero(E, M, a) or isZero(E, M, b)) nanBits(E, M) else infBits(E, M, xorS(E, M, a, b))
    }
    else rne(E, M, xorS(E, M, a, b), sig(E, M, a) * sig(E, M, b), 1, quantum(E, M, a) + quantum(E, M, b))

  pure def fdivide(E: int, M: int, a: int, b: int): int =
    if (isNaN(E, M, a) or isNaN(E, M, b)) nanBits(E, M)
    else if (isInf(E, M, a)) { if (isInf(E, M, b)) nanBits(E, M) else infBits(E, M, xorS(E, M, a, b)) }
    else if (isInf(E, M, b)) xorS(E, M, a, b) * 2^(E + M)
    else if (isZero(E, M, b)) { if (isZero(E, M, a)) nanBits(E, M) else infBits(E, M, xorS(E, M, a, b)) }
    else rne(E, M, xorS(E, M, a, b), sig(E, M, a), sig(E, M, b), quantum(E, M, a) - quantum(E, M, b))

  // correctly rounded square root, decided on exact integers: with an even scale x and
  // n = floor(sqrt(value * 2^-x)), the discarded part is summarised by one sticky bit
  pure def fsqrt(E: int, M: int, a: int): int =
    if (isNaN(E, M, a)) nanBits(E, M)
    else if (isZero(E, M, a)) a
    else if (signOf(E, M, a) == 1) nanBits(E, M)
    else if (isInf(E, M, a)) a
    else {
      pure val q = quantum(E, M, a)
      pure val q2 = if (isOdd(q)) q - 1 else q
      pure val g0 = if (isOdd(q)) 2 * sig(E, M, a) else sig(E, M, a)
      // scale up so that the root has at least M + 4 bits
      pure val up = 2 * (M + 4)
      pure val g = g0 * 2^up
      pure val n = isqrt(g)
      pure val sticky = if (n * n == g) 0 else 1
      rne(E, M, 0, 2 * n + sticky, 1, (q2 - up) / 2 - 1)
    }

  // ---- predicates ----------------------------------------------------------------
  // order of finite/infinite numbers via the integer line of encodings
  pure def ordKey(E: int, M: int, v: int): int =
    if (signOf(E, M, v) == 1) -magOf(E, M, v) else magOf(E, M, v)
  pure def unord(E: int, M: int, a: int, b: int): bool = isNaN(E, M, a) or isNaN(E, M, b)
  pure def flt(E: int, M: int, a: int, b: int): bool =
    not(unord(E, M, a, b)) and ordKey(E, M, a) < ordKey(E, M, b)
  pure def fle(E: int, M: int, a: int, b: int): bool =
    not(unord(E, M, a, b)) and ordKey(E, M, a) <= ordKey(E, M, b)
  pure def fgt(E: int, M: int, a: int, b: int): bool = flt(E, M, b, a)
  pure def fge(E: int, M: int, a: int, b: int): bool = fle(E, M, b, a)

  // same datum: all NaNs are one datum, -0 and +0 are different data
  pure def same(E: int, M: int, a: int, b: int): bool =
    if (isNaN(E, M, a)) isNaN(E, M, b) else a == b

  // ---- rounding to integral values -------------------------------------------------
  // n/2^k with n >= 0, k >= 0: the integer part and whether it is exact
  pure def intPart(E: int, M: int, v: int): int =
    if (quantum(E, M, v) >= 0) sig(E, M, v) * 2^quantum(E, M, v) else sig(E, M, v) / 2^(-quantum(E, M, v))
  pure def hasFrac(E: int, M: int, v: int): bool =
    quantum(E, M, v) < 0 and sig(E, M, v) % 2^(-quantum(E, M, v)) != 0
  pure def fromInt(E: int, M: int, s: int, n: int): int = rne(E, M, s, n, 1, 0)

  pure def ftrunc(E: int, M: int, v: int): int =
    if (isNaN(E, M, v)) nanBits(E, M)
    else if (isInf(E, M, v)) v
    else if (quantum(E, M, v) >= 0) v
    else fromInt(E, M, signOf(E, M, v), intPart(E, M, v))
  pure def ffloor(E: int, M: int, v: int): int =
    if (isNaN(E, M, v)) nanBits(E, M)
    else if (isInf(E, M, v)) v
    else if (quantum(E, M, v) >= 0) v
    else fromInt(E, M, signOf(E, M, v),
      intPart(E, M, v) + (if (signOf(E, M, v) == 1 and hasFrac(E, M, v)) 1 else 0))
  pure def fceil(E: int, M: int, v: int): int =
    if (isNaN(E, M, v)) nanBits(E, M) else fneg(E, M, ffloor(E, M, fneg(E, M, v)))

  // exact integer of an integral datum (signed)
  pure def toInt(E: int, M: int, v: int): int =
    if (signOf(E, M, v) == 1) -intPart(E, M, v) else intPart(E, M, v)
}
