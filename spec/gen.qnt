// Corner-biased operand generation: pure functions of a seed, so that one nondeterministic
// pick of a seed names a whole batch of operands.  The classes follow the case analysis of
// the specification (zero / subnormal / normal / infinite / NaN, exponent alignment distance,
// cancellation, underflow and overflow boundaries, exact ties).
module gen {
  import ieee.* from "./ieee"

  pure val P127: int = 2^127 - 1
  pure def h(seed: int, i: int): int = {
    pure val z1 = (seed * 6364136223846793005 + (i + 1) * 1442695040888963407 + 88172645463325252) % P127
    pure val z2 = (z1 * z1 * z1 + 2862933555777941757) % P127
    pure val z3 = (z2 * z2 * z2 + 3037000493) % P127
    z3 / 2^20
  }
  pure def pick(l: List[int], r: int): int = l[r % l.length()]

  pure def genMan(M: int, r: int): int = {
    pure val k = (r / 64) % M
    pure val u = (r / 2^12) % 2^M
    pure val c = r % 13
    (if (c == 0) 0
    else if (c == 1) 1
    else if (c == 2) 2^M - 1
    else if (c == 3) 2^M - 2
    else if (c == 4) 2^(M - 1)
    else if (c == 5) 2^(M - 1) + 1
    else if (c == 6) 2^(M - 1) - 1
    else if (c == 7) 2^k
    else if (c == 8) 2^k - 1
    else if (c == 9) 2^M - 2^k
    else if (c == 10) (u / 2^k) * 2^k
    else u) % 2^M
  }
  pure def genExp(E: int, M: int, r: int): int = {
    pure val c = r % 16
    pure val u = (r / 2^8) % 2^E
    pure val d = (r / 2^8) % (2 * M + 8)
    pure val e =
      if (c == 0 or c == 1) 0
      else if (c == 2) 1
      else if (c == 3) 2
      else if (c == 4) 2^E - 2
      else if (c == 5) 2^E - 3
      else if (c == 6) bias(E)
      else if (c == 7) bias(E) - 1
      else if (c == 8) bias(E) + 1
      else if (c == 9) bias(E) + d
      else if (c == 10) maxI(0, bias(E) - d)
      else if (c == 11) bias(E) + M - 2 + (r / 2^8) % 6
      else u
    minI(maxI(e, 0), 2^E - 1)
  }
  pure def mk(E: int, M: int, s: int, e: int, m: int): int = s * 2^(E + M) + e * 2^M + m
  pure def clampE(E: int, e: int): int = minI(maxI(e, 0), 2^E - 2)

  pure def special(E: int, M: int, r: int): int = {
    pure val inf = infBits(E, M, 0)
    pure val one = bias(E) * 2^M
    pure val l = [0, 1, 2, 2^M - 1, 2^M, 2^M + 1, inf - 1, inf - 2, inf, inf + 1, nanBits(E, M), 2^(E + M) - 1,
      one, one - 1, one + 1, one - 2^M, one + 2^M, one - 2^(M - 1), 2^(M - 1), inf - 2^M, inf - 2^M - 1]
    pick(l, r / 2) + (r % 2) * 2^(E + M)
  }
  pure def gen1(E: int, M: int, seed: int, i: int): int = {
    pure val r = h(seed, i)
    pure val c = r % 10
    if (c == 0) special(E, M, r / 16)
    else if (c == 1) (r / 16) % 2^(1 + E + M)
    else mk(E, M, (r / 16) % 2, genExp(E, M, r / 32), genMan(M, h(seed, i + 1)))
  }
  // second operand related to the first
  pure def gen2(E: int, M: int, a: int, seed: int, i: int): int = {
    pure val r = h(seed, i)
    pure val u = r / 32
    pure val c = r % 12
    pure val ea = expField(E, M, a)
    pure val s = u % 2
    pure val m = genMan(M, h(seed, i + 1))
    pure val v = u / 2
    if (c == 0) special(E, M, v)
    else if (c <= 3) // alignment distance around the guard/round/sticky boundary
      mk(E, M, s, clampE(E, ea + (v % (2 * M + 12)) - (M + 6)), m)
    else if (c == 4) // (near-)cancellation / near-equal
      { pure val mg = magOf(E, M, a) + (v % 9) - 4
        s * 2^(E + M) + minI(maxI(mg, 0), infBits(E, M, 0)) }
    else if (c == 5) // same magnitude or negation
      s * 2^(E + M) + magOf(E, M, a)
    else if (c == 6) // product near the subnormal boundary
      mk(E, M, s, clampE(E, bias(E) - ea + 2 - (v % (M + 6))), m)
    else if (c == 7) // product near overflow
      mk(E, M, s, clampE(E, 2^E - 2 + bias(E) - ea + (v % 4) - 2), m)
    else if (c == 8) // quotient near the subnormal boundary
      mk(E, M, s, clampE(E, ea + bias(E) - 2 + (v % (M + 6))), m)
    else if (c == 9) // quotient near overflow
      mk(E, M, s, clampE(E, ea - bias(E) + (v % 4) - 2), m)
    else gen1(E, M, seed, i + 2)
  }
  // a pair of significands whose product has exactly M+2 significant bits and is odd: a tie
  pure def tiePair(E: int, M: int, seed: int): (int, int) = {
    pure val r = h(seed, 3)
    pure val k1 = 2 + r % (M - 1)                     // bits of the first odd factor
    pure val f1 = 2^(k1 - 1) + ((r / 2^8) % 2^(k1 - 1)) / 2 * 2 + (if (k1 > 1) 1 else 0)
    pure val q = 2^(M + 1) + 2 * ((r / 2^20) % 2^M) + 1   // odd, M+2 bits
    pure val f2 = q / f1
    pure val f2o = if (isOdd(f2)) f2 else f2 + 1
    pure val mk1 = f1 * 2^(M + 1 - k1) - 2^M
    pure val mk2 = if (f2o == 0) 0 else f2o * 2^(maxI(0, M + 1 - bitLen(f2o))) - 2^M
    pure val ea = genExp(E, M, h(seed, 4))
    pure val eb = clampE(E, (if (r % 3 == 0) bias(E) else bias(E) - ea + 2 - (h(seed, 5) % (M + 6))))
    (mk(E, M, (r / 2^3) % 2, clampE(E, ea), maxI(0, mk1) % 2^M), mk(E, M, (r / 2^4) % 2, eb, maxI(0, mk2) % 2^M))
  }
  // dividend = quotient * divisor exactly (quotient and divisor share the M+1 bits)
  pure def exactQuot(E: int, M: int, seed: int): (int, int) = {
    pure val r = h(seed, 6)
    pure val k = 1 + r % M
    pure val q = 2^(k - 1) + (r / 2^8) % 2^(k - 1)
    pure val y = 2^(M - k) + (h(seed, 7) % 2^(M - k))
    pure val p = q * y
    pure val eb = clampE(E, genExp(E, M, h(seed, 8)))
    pure val d = h(seed, 9) % (M + 8)
    pure val ea = clampE(E, if (r % 2 == 0) eb - bias(E) + 3 - d + M else eb)
    (mk(E, M, r % 2, ea, p * 2^(M + 1 - bitLen(p)) - 2^M), mk(E, M, (r / 4) % 2, eb, y * 2^(M + 1 - bitLen(y)) - 2^M))
  }
  // near-squares for the square root: n^2 + d with n of about (M+2)/2 .. M+2 bits, cut to M+1 bits
  pure def nearSquare(E: int, M: int, seed: int): int = {
    pure val r = h(seed, 10)
    pure val k = 1 + r % (M + 2)
    pure val n = 2^(k - 1) + (r / 2^10) % 2^(k - 1)
    pure val sq = n * n
    pure val b = bitLen(sq)
    pure val g = if (b <= M + 1) sq * 2^(M + 1 - b) else sq / 2^(b - M - 1)
    pure val g2 = g + (r / 2^5) % 3 - 1
    pure val g3 = minI(maxI(g2, 2^M), 2^(M + 1) - 1)
    mk(E, M, 0, genExp(E, M, h(seed, 11)), g3 - 2^M)
  }
  pure def genPair(E: int, M: int, seed: int): (int, int) = {
    pure val c = h(seed, 0) % 8
    if (c == 0) tiePair(E, M, seed)
    else if (c == 1) exactQuot(E, M, seed)
    else {
      pure val a = gen1(E, M, seed, 20)
      (a, gen2(E, M, a, seed, 30))
    }
  }
  pure def genUnary(E: int, M: int, seed: int): int = {
    pure val c = h(seed, 0) % 5
    if (c == 0) nearSquare(E, M, seed) else gen1(E, M, seed, 20)
  }
  // operands of the integral roundings: values around the integers and halves
  pure def genIntegral(E: int, M: int, seed: int): int = {
    pure val c = h(seed, 0) % 4
    if (c == 0) gen1(E, M, seed, 20)
    else {
      pure val r = h(seed, 1)
      pure val x = (r % (M + 8)) - 3                      // exponent -3 .. M+4
      pure val k = (r / 64) % (M + 1)
      pure val m0 = genMan(M, h(seed, 2))
      pure val fr = M - x                                 // fraction bits of the significand
      pure val m = if (c == 1 and fr > 0 and fr <= M) { // integer + {0, 1, -1} ulp
          pure val t = (m0 / 2^fr) * 2^fr + (r / 2^12) % 3 - 1
          minI(maxI(t, 0), 2^M - 1)
        } else if (c == 2) 2^M - 2^k else m0
      mk(E, M, (r / 2^20) % 2, clampE(E, bias(E) + x), m % 2^M)
    }
  }
}
