// Integer gadgets of the circuit library: what a range check, a power-of-two lookup, an absolute
// value, a maximum and a minimum may accept / return, over the prime field F_p.
module gadgets {
  import ieee.* from "./ieee"
  import gen.* from "./gen"

  const P: int                  // field order
  const WIDTHS: List[int]       // range_size settings (0: the library chooses, at most 17)
  const KINDS: List[str]
  const BATCH: int

  var kind: str
  var rows: List[List[int]]

  pure def modP(x: int): int = fmod(x, P)
  pure def sgnP(x: int): int = { pure val m = modP(x)
                                 if (m > P / 2) m - P else m }
  // 1/2^k in the field
  pure def invPow(k: int): int = range(0, k).foldl(1, (a, _) => if (isOdd(a)) (a + P) / 2 else a / 2)

  // declared lengths: short ones, exponent and mantissa sized ones, and up to most of the field (at most 180 bits,
  // since products and differences must not wrap; range checks alone go up to 253)
  pure def someLen(seed: int, short: int): int = {
    pure val r = h(seed, 15)
    if (r % 4 == 0) 1 + (r / 8) % 180 else 1 + (r / 8) % short
  }
  // operands are prover-chosen, or (one in 25) constants of the circuit: a check must not depend on that
  pure def constant(seed: int): int = if (h(seed, 18) % 25 == 0) 1 else 0
  // a long pseudo-random number
  pure def big(seed: int): int = h(seed, 2) + 2^100 * h(seed, 16)

  // ---- range checks: [mode, bits, width, v, verdict, v is a constant of the circuit] -------------------------------
  // mode 0 "loose": nothing in [0, 2^bits) is refused, nothing from the next limb boundary on
  // (nor a negative number) is let through.  mode 1 "tight for small values": exactly [0, 2^bits)
  // for every |v| that does not wrap.  mode 2 "tight": exactly [0, 2^bits) for EVERY field element.
  pure def limbTop(bits: int, w: int): int = if (w == 0) bits + 17 else (bits + w - 1) / w * w
  pure def rangeVerdict(mode: int, bits: int, w: int, v: int): int = {
    pure val x = modP(v)
    if (x < 2^bits) 1
    else if (mode == 0) { if (x >= 2^limbTop(bits, w) and limbTop(bits, w) < bitLen(P)) 0 else 2 }
    else if (mode == 1) { if (absI(sgnP(v)) < 2^200 and limbTop(bits, w) < bitLen(P) - 1) 0 else 2 }
    else 0
  }
  pure def rangeRow(seed: int): List[int] = {
    pure val r = h(seed, 0)
    pure val mode = r % 3
    pure val bits = if (h(seed, 3) % 12 == 0) 181 + h(seed, 4) % (bitLen(P) - 181) else someLen(seed, 66)
    pure val w = WIDTHS[(r / 1024) % WIDTHS.length()]
    pure val k = (r / 2^14) % bitLen(P)
    pure val s = (r / 2^22) % 5 - 2
    pure val c = h(seed, 1) % 12
    pure val u = (big(seed) + 2^200 * h(seed, 5)) % 2^bits
    pure val v =
      if (c == 0) u
      else if (c == 1) 2^bits - 1
      else if (c == 2) 2^bits + s
      else if (c == 3) 2^bits + u
      else if (c == 4) s
      else if (c == 5) -u - 1
      else if (c == 6) 2^limbTop(bits, w) + s
      else if (c == 7) 2^k + s
      else if (c == 8) modP((u + s) * invPow(1 + k % 20))       // k/2^d: small only after scaling
      else if (c == 9) modP((2 * u + 1) * invPow(maxI(0, limbTop(bits, w) - bits)))
      else if (c == 10) P / 2 + s
      else 2^bits - 1 - u % 8
    [mode, bits, w, modP(v), rangeVerdict(mode, bits, w, v), constant(seed)]
  }

  // ---- powers of two: [E, M, width, e, claimed, verdict] ----------------------------
  pure def pow2Row(seed: int): List[int] = {
    pure val r = h(seed, 3)
    pure val fm = [(8, 23), (11, 52), (4, 3), (5, 5), (8, 7)][r % 5]
    pure val tsz = fm._1 + fm._2 + 1
    pure val w = WIDTHS[(r / 8) % WIDTHS.length()]
    pure val e = ((r / 512) % (tsz + 6)) - 3
    pure val j = (r / 2^18) % (tsz + 3)
    pure val k = (r / 2^26) % tsz - tsz / 2
    pure val c = h(seed, 4) % 10
    pure val t = if (e >= 0) 2^e else 0
    pure val claim =
      if (c <= 2) t
      else if (c == 3) 2^j
      else if (c == 4) if (e + k >= 0) 2^(e + k) + k * 2^tsz else k * 2^tsz     // carry into the index
      else if (c == 5) t + 1
      else if (c == 6) t + 2^tsz
      else if (c == 7) -t
      else if (c == 8) 0
      else 1 + e
    [fm._1, fm._2, w, modP(e), modP(claim), if (e >= 0 and e < tsz and modP(claim) == modP(t)) 1 else 0]
  }

  // ---- absolute value / sign: [v, length, width, |v|, v >= 0, verdict, v is a constant] -----------------
  // verdict 1: accepted with exactly this answer; 0: never accepted; 2: if accepted, this answer
  pure def absRow(seed: int): List[int] = {
    pure val r = h(seed, 5)
    pure val len = someLen(seed, 40)
    pure val w = WIDTHS[(r / 64) % WIDTHS.length()]
    pure val c = h(seed, 6) % 9
    pure val u = big(seed) % 2^len
    pure val k = (r / 2^12) % 60
    pure val v =
      if (c == 0) 0 else if (c == 1) 1 else if (c == 2) -1 else if (c == 3) u else if (c == 4) -u
      else if (c == 5) 2^len - 1 else if (c == 6) 1 - 2^len
      else if (c == 7) 2^(limbTop(len, w)) + 2^k else -(2^(limbTop(len, w))) - 2^k
    [modP(v), len, w, absI(v), if (v >= 0) 1 else 0,
     if (absI(v) < 2^len) 1 else if (absI(v) > 2^limbTop(len, w)) 0 else 2, constant(seed)]
  }
  // ---- maximum / minimum: [a, b, length, width, max, min, a >= b, b is a constant] -----------------------
  pure def maxRow(seed: int): List[int] = {
    pure val r = h(seed, 8)
    pure val len = someLen(seed, 40)
    pure val w = WIDTHS[(r / 64) % WIDTHS.length()]
    pure val b = (if (h(seed, 17) % 3 == 0) big(seed + 1) % 2^190 else h(seed, 9) % 2^50) - 2^49
    pure val c = h(seed, 10) % 6
    pure val u = big(seed) % 2^len
    pure val d = if (c == 0) 0 else if (c == 1) 1 else if (c == 2) -1 else if (c == 3) u else if (c == 4) -u
      else (if (isOdd(u)) 2^len - 1 else 1 - 2^len)
    pure val x = b + d
    [modP(x), modP(b), len, w, modP(maxI(x, b)), modP(minI(x, b)), if (x >= b) 1 else 0, constant(seed)]
  }

  // ---- equality test and disjunction: [a, b, form, a == b, a or b]; form: which are constants ----
  pure def logicRow(seed: int): List[int] = {
    pure val r = h(seed, 12)
    pure val a = h(seed, 13) % P
    pure val c = r % 8
    pure val b = if (c <= 1) a else if (c == 2) modP(a + 1) else if (c == 3) modP(-a) else if (c == 4) 0 else h(seed, 14) % P
    pure val a2 = if (c == 5) 0 else if (c >= 6) (r / 16) % 2 else a
    pure val b2 = if (c >= 6) (r / 32) % 2 else b
    [a2, b2, (r / 64) % 4, if (a2 == b2) 1 else 0, if (a2 <= 1 and b2 <= 1) maxI(a2, b2) else 2]
  }

  pure def mkRow(k: str, seed: int): List[int] =
    if (k == "range") rangeRow(seed) else if (k == "pow2") pow2Row(seed)
    else if (k == "abs") absRow(seed)
    else if (k == "logic") logicRow(seed) else maxRow(seed)

  action init = all { kind' = "none", rows' = [] }
  action step = {
    nondet seed = 0.to(2^60).oneOf()
    nondet k = KINDS.indices().oneOf()
    all { kind' = KINDS[k],
          rows' = range(0, BATCH).foldl([], (acc, i) => acc.append(mkRow(KINDS[k], seed * 4096 + i))) }
  }
}
