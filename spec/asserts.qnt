// The equality assertions of the float library: which pairs of data a circuit may accept.
//   verdict 1: every honest proof must be accepted;  0: no prover may get it accepted;
//   verdict 2: left open by the documentation (neighbouring subnormals, infinity / largest finite).
module asserts {
  import ieee.* from "./ieee"
  import gen.* from "./gen"

  const FMTS: List[(int, int)]
  const OPS: List[str]          // "eq" exact, "ulp" one-ULP relaxed, "tol" absolute tolerance
  const BATCH: int

  var cfg: { op: str, E: int, M: int }
  var rows: List[List[int]]     // [a, b, tolerance, verdict]

  pure def isNormal(E: int, M: int, v: int): bool = isFin(E, M, v) and expField(E, M, v) != 0
  pure def vEq(E: int, M: int, a: int, b: int): int = if (same(E, M, a, b)) 1 else 0
  pure def vUlp(E: int, M: int, a: int, b: int): int =
    if (same(E, M, a, b)) 1
    else if (isNaN(E, M, a) or isNaN(E, M, b)) 0
    else if (signOf(E, M, a) != signOf(E, M, b) or absI(a - b) != 1) 0
    else if (isNormal(E, M, a) and isNormal(E, M, b)) 1
    else 2
  pure def vTol(E: int, M: int, a: int, b: int, t: int): int =
    if (same(E, M, a, b)) 1
    else if (isNaN(E, M, a) or isNaN(E, M, b) or signOf(E, M, a) != signOf(E, M, b)) 0
    else if (fle(E, M, fabs(E, M, fsub(E, M, a, b)), t)) 1 else 0
  pure def verdict(op: str, E: int, M: int, a: int, b: int, t: int): int =
    if (op == "eq") vEq(E, M, a, b) else if (op == "ulp") vUlp(E, M, a, b) else vTol(E, M, a, b, t)

  // a datum that differs from a in mantissa and exponent (and sometimes sign) at once, in such amounts that the
  // differences cancel when components are packed into one number
  pure def mixed(E: int, M: int, a: int, r: int): int = {
    pure val k = canon(E, M, a)
    pure val j = r / 16
    pure val s = if (r % 4 == 0) 1 - k.s else k.s
    pure val up = r / 4 % 2 == 0
    pure val dm = if (r / 8 % 2 == 0) 1 else 2^(j % M)
    pure val de = 2^(j / 64 % (E + 1))
    pure val m = if (up) k.m - dm else k.m + dm
    pure val e = if (k.e < 0) k.e + de else k.e - de
    pure val z = eNormMin(E) - e                        // zeros a subnormal number ends in
    if (m < 2^M or m >= 2^(M + 1) or e >= eMax(E)) fneg(E, M, a)
    else if (z <= 0) mk(E, M, s, e + bias(E), m - 2^M)
    else if (z <= M) s * 2^(E + M) + m / 2^z
    else s * 2^(E + M)
  }
  // pairs around the decision boundary
  pure def near(E: int, M: int, a: int, r: int): int = {
    pure val d = (r / 16) % 7 - 3
    pure val c = r % 16
    if (c <= 6) { pure val m = magOf(E, M, a) + d
                  signOf(E, M, a) * 2^(E + M) + minI(maxI(m, 0), 2^(E + M) - 1) }
    else if (c == 7) fneg(E, M, a)
    else if (c == 8) { pure val m = magOf(E, M, a) + 2^M           // one binade up
                       signOf(E, M, a) * 2^(E + M) + minI(m, 2^(E + M) - 1) }
    else if (c == 9) signOf(E, M, a) * 2^(E + M) + maxI(0, magOf(E, M, a) - 2^M)
    else if (c == 10) signOf(E, M, a) * 2^(E + M) + magOf(E, M, a) / 2^M * 2^M   // same exponent, mantissa 0
    else if (c == 11) { // same mantissa, other exponent distance
      pure val e = clampE(E, expField(E, M, a) + d)
      mk(E, M, signOf(E, M, a), e, manField(M, a)) }
    else if (c == 12) special(E, M, r / 128)
    else if (c >= 14) mixed(E, M, a, r / 128)
    else a
  }
  pure def edge(E: int, M: int, r: int): int = {  // binade edges, largest finite, infinities, NaNs
    pure val e = genExp(E, M, r / 64)
    pure val s = r % 2
    pure val c = (r / 2) % 6
    if (c == 0) mk(E, M, s, e, 2^M - 1) else if (c == 1) mk(E, M, s, e, 0)
    else if (c == 2) s * 2^(E + M) + infBits(E, M, 0) - 1 else if (c == 3) infBits(E, M, s)
    else if (c == 4) nanBits(E, M) + s * 2^(E + M) else s * 2^(E + M) + (r / 16) % 3
  }
  pure def genTol(E: int, M: int, r: int): int = {
    pure val c = r % 7
    pure val one = bias(E) * 2^M
    if (c == 0) one else if (c == 1) maxI(1, one - 20 * 2^M + (r / 8) % 2^M) else if (c == 2) 0
    else if (c == 3) infBits(E, M, 0) else if (c == 4) 1 else if (c == 5) infBits(E, M, 0) - 1
    else mk(E, M, 0, clampE(E, genExp(E, M, r / 8)), genMan(M, r / 1024))
  }
  pure def row(op: str, E: int, M: int, seed: int): List[int] = {
    pure val r = h(seed, 40)
    pure val a = if (r % 3 == 0) edge(E, M, r / 4) else gen1(E, M, seed, 20)
    pure val t = if (op == "tol") genTol(E, M, h(seed, 41)) else 0
    pure val b = if (op == "tol" and r % 5 <= 2 and isFin(E, M, a) and isFin(E, M, t)) {
        // |a - b| about t
        pure val x = fsub(E, M, a, t)
        near(E, M, if (r % 2 == 0 or isNaN(E, M, x)) fadd(E, M, a, t) else x, h(seed, 42) % 128 / 16 * 16)
      } else near(E, M, a, h(seed, 42))
    [a, b, t, verdict(op, E, M, a, b, t)]
  }

  action init = all { cfg' = { op: "none", E: 0, M: 0 }, rows' = [] }
  action step = {
    nondet seed = 0.to(2^60).oneOf()
    nondet f = FMTS.indices().oneOf()
    nondet o = OPS.indices().oneOf()
    all {
      cfg' = { op: OPS[o], E: FMTS[f]._1, M: FMTS[f]._2 },
      rows' = range(0, BATCH).foldl([], (acc, i) => acc.append(row(OPS[o], FMTS[f]._1, FMTS[f]._2, seed * 4096 + i)))
    }
  }
  // ---- the specification's own obligations ----
  def pair(r: List[int]): bool = {
    val E = cfg.E
    val M = cfg.M
    and {
      // the assertions are symmetric and reflexive, and the relaxed ones contain equality
      verdict(cfg.op, E, M, r[1], r[0], r[2]) == r[3],
      verdict(cfg.op, E, M, r[0], r[0], r[2]) == 1,
      vEq(E, M, r[0], r[1]) == 1 implies r[3] == 1,
      // values of opposite sign are never equal, not even within a tolerance
      (not(isNaN(E, M, r[0])) and signOf(E, M, r[0]) != signOf(E, M, r[1])) implies r[3] == 0
    }
  }
  val wellFormed = rows.indices().forall(i => pair(rows[i]))
}
