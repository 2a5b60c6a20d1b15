// Real arithmetic for the geometric part: fixed-point numbers scaled by 2^160 with exact integer
// operations; the elementary functions are good to about 2^-150.
module fix {
  import ieee.* from "./ieee"

  pure val S: int = 160
  pure val ONE: int = 2^160
  pure val PI: int = 4591442807048218921384805199743311128454155024418
  pure val HALFPI: int = PI / 2

  pure def mulF(a: int, b: int): int = a * b / ONE
  pure def divF(a: int, b: int): int = a * ONE / b
  pure def sqF(a: int): int = a * a / ONE
  pure def sqrtF(a: int): int = if (a <= 0) 0 else isqrt(a * ONE)
  pure def roundF(a: int): int = fdiv(a + ONE / 2, ONE)
  // a decimal constant n / 10^18
  pure def dec18(n: int): int = n * ONE / 10^18

  // Taylor series of the sine for |x| <= pi/2
  pure def sinT(x: int): int = {
    pure val x2 = sqF(x)
    range(1, 23).foldl({ t: x, s: x }, (acc, k) => {
      pure val t2 = -mulF(acc.t, x2) / (2 * k * (2 * k + 1))
      { t: t2, s: acc.s + t2 }
    }).s
  }
  pure def sinF(x: int): int = {
    pure val r = fmod(x + PI, 2 * PI) - PI           // [-pi, pi)
    if (r > HALFPI) sinT(PI - r) else if (r < -HALFPI) sinT(-PI - r) else sinT(r)
  }
  pure def cosF(x: int): int = sinF(x + HALFPI)
  // |x| <= 1: three halvings of the angle, then the series
  pure def halve(x: int): int = divF(x, ONE + sqrtF(ONE + sqF(x)))
  pure def atanT(x: int): int = {
    pure val y = halve(halve(halve(x)))
    pure val y2 = sqF(y)
    8 * range(1, 26).foldl({ t: y, s: y }, (acc, k) => {
      pure val t2 = -mulF(acc.t, y2)
      { t: t2, s: acc.s + t2 / (2 * k + 1) }
    }).s
  }
  pure def atanF(x: int): int =
    if (absI(x) <= ONE) atanT(x) else (if (x > 0) HALFPI else -HALFPI) - atanT(divF(ONE, x))
  // angle of (x, y)
  pure def atan2F(y: int, x: int): int =
    if (x == 0) { if (y > 0) HALFPI else if (y < 0) -HALFPI else 0 }
    else if (x > 0) atanF(divF(y, x))
    else if (y >= 0) atanF(divF(y, x)) + PI else atanF(divF(y, x)) - PI

  // value of a finite datum (exact above 2^-160)
  pure def valF(E: int, M: int, v: int): int = {
    pure val k = quantum(E, M, v) + S
    pure val m = if (k >= 0) sig(E, M, v) * 2^k else sig(E, M, v) / 2^(-k)
    if (signOf(E, M, v) == 1) -m else m
  }
  // nearest datum
  pure def datum(E: int, M: int, x: int): int = rne(E, M, if (x < 0) 1 else 0, absI(x), 1, -S)
  // an upper bound of one unit in the last place of M+1-bit numbers of magnitude x
  pure def ulpF(M: int, x: int): int = absI(x) / 2^M + 1
}
