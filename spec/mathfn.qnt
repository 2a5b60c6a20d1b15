// The mathematical functions built on the floats, and the conversions of data outside of circuits:
// arctangent, sine, two-argument arctangent, half-angle helper values, Horner's scheme, encodings.
// A row is a call (args) with every admissible result (cands); tol says how a component of the result
// is compared: >= 0: a number (scaled 2^160) within that distance, -1: an integer, -2: a datum, bit for bit.
module mathfn {
  import ieee.* from "./ieee"
  import gen.* from "./gen"
  import fix.* from "./fix"

  const FMTS: List[(int, int)]
  const KINDS: List[str]
  const BATCH: int

  type Row = { args: List[int], cands: List[List[int]], tol: List[int] }
  var kind: str
  var fmt: (int, int)
  var rows: List[Row]
  pure val NONE: Row = { args: [], cands: [], tol: [] }

  pure def ulp1(M: int): int = ONE / 2^M
  pure def sgn(s: int, x: int): int = if (s == 1) -x else x
  // uniform fraction
  pure def frac(r: int): int = (r % 2^80) * 2^80
  // a datum near the datum of x: up to four units away
  pure def nearby(E: int, M: int, x: int, r: int): int = {
    pure val d = datum(E, M, absI(x))
    pure val t = maxI(0, minI(d + r % 9 - 4, infBits(E, M, 0) - 1))
    t + (r / 16) % 2 * 2^(E + M)
  }
  pure def signed(E: int, M: int, v: int, r: int): int = magOf(E, M, v) + r % 2 * 2^(E + M)

  // ---- arctangent ---------------------------------------------------------------------------
  // accuracy of the published polynomials (on [0, 1/1024], up to 1/64, 1/16, 1/2 and 1) and their rounding, about the angle a
  pure def atanTol(M: int, a: int): int = {
    pure val t = minI(a, HALFPI - a)
    pure val near = t < 46 * ONE / 100
    3 * ulpF(M, a) + (if (M <= 23) (if (near) 80 * ONE / 10^10 else 33 * ONE / 10^9)
                      else if (t < ONE / 1024) 55 * ONE / 10^20 else if (t < ONE / 64) 13 * ONE / 10^19
                      else if (t < ONE / 16) 55 * ONE / 10^19 else if (near) 44 * ONE / 10^18 else 58 * ONE / 10^17)
  }
  pure def atanArg(E: int, M: int, seed: int): int = {
    pure val r = h(seed, 1)
    pure val u = frac(h(seed, 2))
    pure val c = r % 8
    pure val w = if (c == 0) gen1(E, M, seed, 30)
      else if (c == 1) { if (r / 8 % 8 == 0) special(E, M, r / 64) else gen1(E, M, seed, 37) }
      else if (c == 2) nearby(E, M, ONE, r / 8)
      else if (c == 3) datum(E, M, u)
      else if (c == 4) datum(E, M, 4 * u)
      else if (c == 5) datum(E, M, divF(ONE, u + ONE / 2^40))
      else if (c == 6) datum(E, M, u / 2^((r / 8) % 60))
      else datum(E, M, u * 2^((r / 8) % 60))
    signed(E, M, w, r / 2^20)
  }
  // |v| as a ratio against 1
  pure def atanMag(E: int, M: int, v: int): int =
    if (isInf(E, M, v)) HALFPI else atanF(absI(valF(E, M, v)))
  pure def atanRow(E: int, M: int, seed: int): Row = {
    pure val v = atanArg(E, M, seed)
    if (isNaN(E, M, v)) { args: [v], cands: [[nanBits(E, M)]], tol: [-2] }
    else { args: [v], cands: [[sgn(signOf(E, M, v), atanMag(E, M, v)), signOf(E, M, v)]], tol: [atanTol(M, atanMag(E, M, v)), -1] }
  }

  // ---- sine on [-pi, pi] ----------------------------------------------------------------------
  pure def sinArg(E: int, M: int, seed: int): int = {
    pure val r = h(seed, 3)
    pure val u = mulF(frac(h(seed, 4)), PI)
    pure val c = r % 8
    pure val w = if (c <= 2) datum(E, M, u)
      else if (c == 3) nearby(E, M, HALFPI, r / 8)
      else if (c == 4) nearby(E, M, PI, r / 8)
      else if (c == 5) datum(E, M, PI - u / 2^((r / 8) % 60))
      else if (c == 6) datum(E, M, u / 2^((r / 8) % 150))
      else gen1(E, M, seed, 31)
    pure val m = magOf(E, M, w)
    signed(E, M, if (m > datum(E, M, PI)) 0 else m, r / 2^20)
  }
  pure def sinRow(E: int, M: int, seed: int): Row = {
    pure val v = sinArg(E, M, seed)
    pure val x = valF(E, M, v)
    // beyond a quarter turn large terms or angles cancel
    { args: [v], cands: [[sinF(x), signOf(E, M, v)]], tol: [4 * ulpF(M, sinF(x)) + (if (absI(x) > HALFPI - 4 * ulp1(M)) 4 * ulp1(M) else 0), -1] }
  }

  // ---- angle of a point (x, y) ------------------------------------------------------------------
  pure def angle(E: int, M: int, y: int, x: int): int = {
    pure val q = minI(quantum(E, M, y), quantum(E, M, x))
    pure val ny = sig(E, M, y) * 2^(quantum(E, M, y) - q)
    pure val nx = sig(E, M, x) * 2^(quantum(E, M, x) - q)
    pure val t = if (isInf(E, M, y)) HALFPI else if (isInf(E, M, x)) 0
      else if (nx >= ny) atanT(ny * ONE / nx) else HALFPI - atanT(nx * ONE / ny)
    sgn(signOf(E, M, y), if (signOf(E, M, x) == 1) PI - t else t)
  }
  pure def atan2Row(E: int, M: int, seed: int): Row = {
    pure val r = h(seed, 5)
    pure val a = gen1(E, M, seed, 32)
    pure val o = if (r % 3 == 0) (a, gen2(E, M, a, seed, 33))
      else if (r % 3 == 1) genPair(E, M, seed)
      else { pure val t = mulF(2 * frac(h(seed, 6)) - ONE, PI)
             (datum(E, M, mulF(sinF(t), frac(h(seed, 7)))), datum(E, M, mulF(cosF(t), frac(h(seed, 7))))) }
    pure val y = if (r / 4 % 16 == 0) signed(E, M, 0, r / 64) else o._1
    pure val x = if (r / 4 % 16 == 1) signed(E, M, 0, r / 64) else o._2
    if (isNaN(E, M, y) or isNaN(E, M, x)) { args: [y, x], cands: [[nanBits(E, M)]], tol: [-2] }
    else if ((isZero(E, M, y) and isZero(E, M, x)) or (isInf(E, M, y) and isInf(E, M, x))) NONE   // left open
    else { args: [y, x], cands: [[angle(E, M, y, x), signOf(E, M, y)]], tol: [atanTol(M, minI(absI(angle(E, M, y, x)), PI - absI(angle(E, M, y, x)))) + 4 * ulp1(M), -1] }
  }

  // ---- half-angle helper: tan(v/2), 2 sin(v/2) cos(v/2), sin(v/2), cos(v/2) -----------------------
  pure def halfRow(E: int, M: int, seed: int): Row = {
    pure val r = h(seed, 8)
    pure val u = mulF(frac(h(seed, 9)), 4 * PI)
    pure val c = r % 8
    pure val w = if (c <= 2) datum(E, M, u)
      else if (c == 3) nearby(E, M, ((r / 2^10) % 9) * HALFPI, r / 8)
      else if (c == 4) datum(E, M, absI(((r / 2^10) % 9) * HALFPI - u / 2^((r / 8) % 60)))
      else if (c == 5) datum(E, M, u / 2^((r / 8) % 150))
      else if (c == 6) datum(E, M, u / 4)
      else gen1(E, M, seed, 34)
    pure val v = signed(E, M, if (magOf(E, M, w) > datum(E, M, 4 * PI)) 0 else w, r / 2^20)
    pure val x = valF(E, M, v) / 2
    pure val s = sinF(x)
    pure val k = cosF(x)
    // the prover's own library is good to a few units (the tangent to some 15) and loses more next to zeros
    pure def tol(y: int): int = 2 * ulpF(M, y) + ONE / 2^75
    if (k == 0) NONE
    else { args: [v], cands: [[divF(s, k), 2 * mulF(s, k), s, k]],
           tol: [2 * ulpF(M, divF(s, k)) + 24 * ulpF(52, divF(s, k)) + divF(divF(ONE / 2^75, k), k), tol(2 * mulF(s, k)), tol(s), tol(k)] }
  }

  // ---- Horner's scheme: args = point, coefficients ------------------------------------------------
  pure def horner(E: int, M: int, at: int, cs: List[int]): int =
    cs.foldl(0, (acc, c) => fadd(E, M, fmul(E, M, acc, at), c))
  pure def reversed(l: List[int]): List[int] =
    range(0, l.length()).foldl([], (acc, i) => acc.append(l[l.length() - 1 - i]))
  pure def polyRow(k: str, E: int, M: int, seed: int): Row = {
    pure val r = h(seed, 10)
    pure val n = r % 7
    pure val at = if (r / 8 % 3 == 0) gen1(E, M, seed, 35) else datum(E, M, mulF(4 * frac(h(seed, 11)) - 2 * ONE, ONE))
    pure val cs = range(0, n).foldl([], (acc, i) => {
      pure val w = h(seed, 40 + i)
      acc.append(
        if (r / 64 % 4 == 0) gen1(E, M, seed, 50 + i)
        else if (w % 8 == 0) signed(E, M, 0, w / 8)
        else datum(E, M, 8 * frac(w / 8) - 4 * ONE)) })
    { args: [at].concat(cs), cands: [[horner(E, M, at, if (k == "eval") reversed(cs) else cs)]], tol: [-2] }
  }

  // ---- conversions outside of circuits ---------------------------------------------------------------
  // bits -> sign, exponent, mantissa, abnormal -> bits
  pure def convertRow(E: int, M: int, seed: int): Row = {
    pure val v = gen1(E, M, seed, 36)
    pure val c = canon(E, M, v)
    { args: [E, M, v], cands: [[c.s, c.e, c.m, c.a, v]], tol: [-1, -1, -1, -1, -2] }
  }
  // integer / 10^9 in double precision: both roundings
  pure def scaledRow(seed: int): Row = {
    pure val r = h(seed, 12)
    pure val m = (r / 16) % 2^((r / 2^8) % 63 + 1)
    pure val n = if (r % 8 == 0) m * 10^9 % 2^62 else m
    pure val s = r / 8 % 2
    { args: [sgn(s, n)], cands: [[fdivide(11, 52, fromInt(11, 52, if (n == 0) 0 else s, n), fromInt(11, 52, 0, 10^9))]], tol: [-2] }
  }
  pure def degRow(seed: int): Row = {
    pure val r = h(seed, 13)
    pure val v = signed(11, 52, datum(11, 52, mulF(frac(h(seed, 14)), 8 * ONE) / 2^(r % 40)), r / 64)
    pure val x = divF(valF(11, 52, v) * 180, PI)
    { args: [v], cands: [[x]], tol: [2 * ulpF(52, x)] }
  }
  // character codes -> accepted?, bits
  pure val DIGITS: List[int] = [48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102, 65, 66, 67, 68, 69, 70]
  pure val OTHER: List[int] = [103, 71, 45, 43, 95, 120, 88, 32, 46, 112]
  pure def digit(c: int): int = if (c >= 48 and c <= 57) c - 48 else if (c >= 97 and c <= 102) c - 87 else if (c >= 65 and c <= 70) c - 55 else -1
  pure def hexRow(E: int, M: int, seed: int): Row = {
    pure val r = h(seed, 15)
    pure val w = (1 + E + M) / 4
    pure val n = if (r % 4 == 0) (r / 8) % (w + 3) else w
    pure val bad = if (r / 2^12 % 6 == 0 and n > 0) (r / 2^16) % n else -1
    pure val s = range(0, n).foldl([], (acc, i) => {
      pure val u = h(seed, 70 + i)
      acc.append(if (i == bad) pick(OTHER, u)
        else if (n > w and i < n - w and r / 2^30 % 2 == 0) 48
        else if (i == 0 and u % 3 == 0) 55 else if (i < 3 and u % 3 == 0) 102 else pick(DIGITS, u / 16)) })
    pure val ok = s.length() > 0 and s.foldl(true, (acc, c) => acc and digit(c) >= 0)
    pure val v = s.foldl(0, (acc, c) => acc * 16 + digit(c))
    if (ok and v < 2^(1 + E + M)) { args: s, cands: [[1, v]], tol: [-1, -2] }
    else { args: s, cands: [[0, 0]], tol: [-1, -2] }
  }

  // text -> bytes: the characters themselves, or (first argument 1) the bytes a hexadecimal text spells
  pure def bytesRow(seed: int): Row = {
    pure val r = h(seed, 16)
    pure val n = r / 2 % 20
    pure val bs = range(0, n).foldl([], (acc, i) => acc.append(if (r / 2^10 % 3 == 0) pick(DIGITS, h(seed, 120 + i)) else h(seed, 120 + i) % 128))
    pure val hs = range(0, 2 * n).foldl([], (acc, i) => acc.append(pick(DIGITS, h(seed, 160 + i))))
    pure val want = if (r % 2 == 0) bs else range(0, n).foldl([], (acc, i) => acc.append(digit(hs[2 * i]) * 16 + digit(hs[2 * i + 1])))
    { args: [r % 2].concat(if (r % 2 == 0) bs else hs), cands: [[n].concat(want)], tol: range(0, n + 1).foldl([], (acc, _) => acc.append(-1)) }
  }

  pure def mkRow(k: str, E: int, M: int, seed: int): Row =
    if (k == "atan") atanRow(E, M, seed) else if (k == "sin") sinRow(E, M, seed)
    else if (k == "atan2") atan2Row(E, M, seed) else if (k == "half") halfRow(E, M, seed)
    else if (k == "eval" or k == "evalk") polyRow(k, E, M, seed)
    else if (k == "convert") convertRow(E, M, seed) else if (k == "scaled") scaledRow(seed)
    else if (k == "degrees") degRow(seed) else if (k == "bytes") bytesRow(seed) else hexRow(E, M, seed)

  action init = all { kind' = "none", fmt' = (8, 23), rows' = [] }
  action step = {
    nondet seed = 0.to(2^60).oneOf()
    nondet f = FMTS.indices().oneOf()
    nondet k = KINDS.indices().oneOf()
    all { kind' = KINDS[k], fmt' = FMTS[f],
          rows' = range(0, BATCH).foldl([], (acc, i) => acc.append(mkRow(KINDS[k], FMTS[f]._1, FMTS[f]._2, seed * 4096 + i))) }
  }

  // ---- what the specification itself must satisfy ------------------------------------------------------
  // arctangents stay within a quarter turn and grow with the magnitude; sin^2 + cos^2 = 1 behind the half-angle rows
  def sane = rows.indices().forall(i => {
    val r = rows[i]
    or {
      r.args.length() == 0 or r.tol[0] == -2,
      kind == "atan" and absI(r.cands[0][0]) <= HALFPI,
      kind == "atan2" and absI(r.cands[0][0]) <= PI,
      kind == "sin" and absI(r.cands[0][0]) <= ONE,
      kind == "half" and absI(sqF(r.cands[0][2]) + sqF(r.cands[0][3]) - ONE) <= 2^20,
      kind == "convert" and encode(fmt._1, fmt._2, canon(fmt._1, fmt._2, r.args[2])) == (if (isNaN(fmt._1, fmt._2, r.args[2])) nanBits(fmt._1, fmt._2) + 0 * signOf(fmt._1, fmt._2, r.args[2]) else r.args[2]),
      not(Set("atan", "atan2", "sin", "half", "convert").contains(kind))
    }
  })
}
