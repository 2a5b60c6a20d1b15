// Exchange with the external H3 tools and files: a call hands exact arguments to a tool, the tool prints a
// text and exits, and the caller learns exactly what was printed - or that there was no answer.  Distances
// over the sphere, and the proximity program built from all this.
module exchange {
  import ieee.* from "./ieee"
  import gen.* from "./gen"
  import fix.* from "./fix"

  const KINDS: List[str]
  const BATCH: int

  // a piece of text: s, then n in decimal (d = 0), with d > 0 digits after the point, in hexadecimal (d = -2) or nothing (d = -1)
  type Tok = { s: str, n: int, d: int }
  // what: the call; nums: its numeric arguments; tool: what the tool prints, code: how it exits;
  // ok: 1 a result, 0 an error; res / tol: the result (tol -1: an integer, >= 0: a number scaled 2^160);
  // given: what the tool must have been told (numbers scaled 2^160, or one integer)
  type Row = { what: str, nums: List[int], tool: List[Tok], tool2: List[Tok], code: int, code2: int, ok: int, res: List[int], tol: List[int], given: List[int] }
  var rows: List[Row]

  pure def lit(t: str): Tok = { s: t, n: 0, d: -1 }
  pure def num(t: str, k: int): Tok = { s: t, n: k, d: 0 }
  pure def decimal(t: str, k: int, digits: int): Tok = { s: t, n: k, d: digits }
  pure def base(w: str): Row = { what: w, nums: [], tool: [], tool2: [], code: 0, code2: 0, ok: 1, res: [], tol: [], given: [] }

  // ---- text the tools print -----------------------------------------------------------------
  pure def noise(r: int): List[Tok] =
    [[], [lit("H3 library 4.1.0\n")], [lit("warning: I: ?, J: 1, K: 2\n")], [num("debug I: ", r % 90), lit(", K: 3\n")], [lit("\n")], [lit("face 7 -- ok\n")]][r % 6]
  pure def small(r: int): int = if (r % 3 == 0) r / 8 % 3 else (r / 8) % 2^(1 + r / 2^10 % 30)
  pure def index(r: int): int = 2^59 + (r / 16 % 2^58)
  // a coordinate handed over, in double precision
  pure def coord(seed: int, i: int): int = {
    pure val r = h(seed, i)
    pure val u = (h(seed, i + 1) % 2^80) * 2^80
    pure val c = r % 8
    pure val m = if (c <= 3) datum(11, 52, mulF(u, 180 * ONE)) else if (c == 4) datum(11, 52, u / 2^(r / 8 % 120))
      else if (c == 5) datum(11, 52, PI / 2 - u / 2^(r / 8 % 60)) else if (c == 6) (r / 8 % 4) * 2^(r / 2^10 % 40) else datum(11, 52, mulF(u, 2^20 * ONE))
    m % 2^63 + r / 2^50 % 2 * 2^63
  }
  pure def cfix(v: int): int = valF(11, 52, v)

  // ---- location -> I, J, K / index -----------------------------------------------------------
  pure def locate(w: str, seed: int): Row = {
    pure val r = h(seed, 1)
    pure val res = r % 16
    pure val la = coord(seed, 2)
    pure val ln = coord(seed, 4)
    pure val i = small(h(seed, 6))
    pure val j = small(h(seed, 7))
    pure val k = small(h(seed, 8))
    pure val x = index(h(seed, 9))
    pure val code = if (r / 16 % 8 == 0) 1 + r / 2^12 % 3 else 0
    pure val silent = r / 2^7 % 8 == 0
    pure val cell = [{ s: "--- ", n: x, d: -2 }, lit("\n")]
    pure val ijk = [num("I: ", i), num(", J: ", j), num(", K: ", k), lit("\n")]
    pure val body = if (w == "tocell") (if (r / 2^20 % 2 == 0) ijk else []).concat(if (silent) [] else cell)
      else (if (silent) [] else ijk).concat(if (r / 2^20 % 2 == 0) cell else [])
    pure val t = noise(h(seed, 10)).concat(noise(h(seed, 11))).concat(body).concat(noise(h(seed, 12)))
    pure val ok = code == 0 and not(silent)
    { ...base(w), nums: [res, la, ln], tool: t, code: code, ok: if (ok) 1 else 0,
      res: if (not(ok)) [] else if (w == "tocell") [x] else [i, j, k],
      tol: if (not(ok)) [] else if (w == "tocell") [-1] else [-1, -1, -1], given: [res, cfix(la), cfix(ln)] }
  }
  // ---- index -> centre / boundary ---------------------------------------------------------------
  // degrees with nine digits: all four quadrants, the axes, next to them
  pure def degrees(r: int, top: int): int = {
    pure val c = r % 8
    pure val m = if (c == 0) 0 else if (c == 1) r / 8 % 1000 else if (c == 2) top * 10^9 - r / 8 % 1000 else r / 8 % (top * 10^9)
    if (r / 2^50 % 2 == 0) m else -m
  }
  pure def degF(k: int): int = k * ONE / 10^9
  pure def dtol(k: int): int = ulpF(52, degF(k)) + 1
  pure def centre(seed: int): Row = {
    pure val r = h(seed, 20)
    pure val x = index(h(seed, 21))
    pure val a = degrees(h(seed, 22), 90)
    pure val b = degrees(h(seed, 23), 180)
    pure val code = if (r % 8 == 0) 1 else 0
    pure val form = r / 8 % 10
    pure val sep = [" ", "\t", "   ", "\n"][r / 2^10 % 4]
    pure val bad = form >= 8
    pure val t = if (form == 8) [decimal("", a, 9), lit("\n")] else if (form == 9) [lit("error cell "), decimal("", a, 9), decimal(sep, b, 9)]
      else [lit([""," ","\n"][r / 2^14 % 3]), decimal("", a, 9), decimal(sep, b, 9), lit("\n")].concat(if (form == 7) [lit("0.5 extra\n")] else [])
    pure val ok = code == 0 and not(bad)
    { ...base("tolatlng"), nums: [x], tool: t, code: code, ok: if (ok) 1 else 0, res: if (ok) [degF(a), degF(b)] else [],
      tol: if (ok) [dtol(a), dtol(b)] else [], given: [x] }
  }
  pure def outline(seed: int, n: int): List[(int, int)] =
    range(0, n).foldl([], (acc, i) => acc.append((degrees(h(seed, 100 + 2 * i), 90), degrees(h(seed, 101 + 2 * i), 180))))
  pure def printed(pts: List[(int, int)], q: int): List[Tok] = {
    pure val gap = [" ", "   ", "\t"][q % 3]
    pure val opening = ["{\n", "", "Boundary:\n{\n"][q / 4 % 3]
    pure val indent = ["   ", "", "\t"][q / 16 % 3]
    pure val body = pts.foldl([lit(opening)], (acc, v) => acc.concat([decimal(indent, v._1, 9), decimal(gap, v._2, 9), lit("\n")]))
    body.append(lit(["}\n", "}", ""][q / 64 % 3]))
  }
  pure def boundary(seed: int): Row = {
    pure val r = h(seed, 24)
    pure val x = index(h(seed, 25))
    pure val ps = outline(seed, 1 + r / 8 % 10)
    pure val code = if (r % 8 == 0) 1 else 0
    { ...base("toboundary"), nums: [x], tool: printed(ps, h(seed, 26)), code: code, ok: if (code == 0) 1 else 0, given: [x],
      res: if (code != 0) [] else ps.foldl([], (acc, p) => acc.concat([degF(p._1), degF(p._2)])),
      tol: if (code != 0) [] else ps.foldl([], (acc, p) => acc.concat([dtol(p._1), dtol(p._2)])) }
  }
  // ---- cells written to a file and read back -------------------------------------------------------
  pure def single(v: int): int = {
    pure val w = rne(8, 23, signOf(11, 52, v), sig(11, 52, v), 1, quantum(11, 52, v))
    rne(11, 52, signOf(8, 23, w), sig(8, 23, w), 1, quantum(8, 23, w))
  }
  pure def cells(seed: int): Row = {
    pure val r = h(seed, 27)
    pure val vs = range(0, 2 * (r / 2 % 6)).foldl([], (acc, i) => acc.append(coord(seed, 200 + 2 * i)))
    { ...base("cells"), nums: [r % 2].concat(vs), res: if (r % 2 == 0) vs else vs.foldl([], (acc, v) => acc.append(single(v))),
      tol: vs.foldl([], (acc, _) => acc.append(-1)) }
  }
  // ---- distances over the sphere ---------------------------------------------------------------------
  pure def rad(x: int): int = mulF(x, PI) / 180
  pure def haversine(la1: int, ln1: int, la2: int, ln2: int): int =
    sqF(sinF(rad(la2 - la1) / 2)) + mulF(mulF(cosF(rad(la1)), cosF(rad(la2))), sqF(sinF(rad(ln2 - ln1) / 2)))
  pure def arc(a: int): int = 2 * atan2F(sqrtF(a), sqrtF(ONE - a))
  // rounding errors are relative for close points; next to the antipode only half of the digits remain
  pure def arcTol(a: int): int = minI(divF(sqrtF(a), sqrtF(maxI(0, ONE - a)) + 1) / 2^48, ONE / 2^23) + arc(a) / 2^48 + ONE / 2^70
  // sines and cosines of rounded angles are only known absolutely, which is what counts at the poles and after a whole turn
  pure def sinSq(x: int): (int, int) = {
    pure val s = absI(sinF(rad(x) / 2))
    pure val d = absI(rad(x)) / 2^51
    (sqF(s), mulF(2 * s, d) + mulF(d, d))
  }
  pure def roundingTol(la1: int, ln1: int, la2: int, ln2: int): int = {
    pure val e = ONE / 2^50
    pure val c1 = absI(cosF(rad(la1)))
    pure val c2 = absI(cosF(rad(la2)))
    pure val t = sinSq(la2 - la1)
    pure val n = sinSq(ln2 - ln1)
    pure val d = t._2 + mulF(mulF(c1 + c2, e) + mulF(e, e), n._1 + n._2) + mulF(mulF(c1, c2), n._2)
    pure val a = minI(ONE, haversine(la1, ln1, la2, ln2))
    minI(3 * sqrtF(d), divF(2 * d, sqrtF(mulF(a, ONE - a)) + 1))
  }
  pure def place(seed: int, i: int, top: int): int = {
    pure val r = h(seed, i)
    pure val u = mulF((h(seed, i + 1) % 2^80) * 2^80, top * ONE)
    datum(11, 52, if (r % 8 == 0) 0 else if (r % 8 == 1) top * ONE else if (r % 8 == 2) u / 2^(r / 8 % 60) else u) + r / 2^50 % 2 * 2^63
  }
  pure def distance(seed: int): Row = {
    pure val r = h(seed, 30)
    pure val la = place(seed, 31, 90)
    pure val ln = place(seed, 33, 180)
    pure val c = r % 6
    // anywhere, close by, the antipode and its neighbourhood
    pure val t = ((h(seed, 35) % 2^80) * 2^80 - ONE / 2) / 2^(r / 8 % 50)
    pure val t2 = ((h(seed, 36) % 2^80) * 2^80 - ONE / 2) / 2^(r / 2^10 % 50)
    pure def dat(x: int): int = if (x < 0) 2^63 + datum(11, 52, -x) else datum(11, 52, x)
    pure val q = if (c <= 2) (place(seed, 37, 90), place(seed, 39, 180))
      else if (c == 3) (dat(cfix(la) + t), dat(cfix(ln) + t2))
      else if (c == 4) (dat(-cfix(la)), dat(if (cfix(ln) > 0) cfix(ln) - 180 * ONE else cfix(ln) + 180 * ONE))
      else (dat(-cfix(la) + t), dat((if (cfix(ln) > 0) cfix(ln) - 180 * ONE else cfix(ln) + 180 * ONE) + t2))
    pure val a = minI(ONE, haversine(cfix(la), cfix(ln), cfix(q._1), cfix(q._2)))
    { ...base("distance"), nums: [la, ln, q._1, q._2], res: [6371000 * arc(a)], tol: [6371000 * (arcTol(a) + roundingTol(cfix(la), cfix(ln), cfix(q._1), cfix(q._2)))] }
  }
  // ---- the program: its prover at (40.689167, 74.044444), its verifier at (40.689167, 72.044444) ------------
  pure val LAT: int = 40689167 * ONE / 10^6
  pure def program(seed: int): Row = {
    pure val r = h(seed, 41)
    pure val x = index(h(seed, 42))
    pure val ps0 = outline(seed, 1 + r / 2^10 % 8)
    // most outlines lie around the verifier or its mirror images, its antipode (-40.689167, -107.955556) included
    pure val ps = if (r % 4 == 0) ps0 else ps0.foldl([], (acc, p) => acc.append(
      (if (r % 4 == 3) -40689167000 + p._1 / 2^(r / 16 % 30) else 40689167000 + p._1 / 2^(r / 16 % 30),
       (if (r % 4 == 2) -72044444000 else if (r % 8 == 3) -107955556000 else 72044444000) + p._2 / 2^(r / 2^6 % 30)))).select(p => absI(p._1) <= 90 * 10^9 and absI(p._2) <= 180 * 10^9)
    pure val c1 = if (r / 2^20 % 8 == 0) 1 else 0
    pure val c2 = if (r / 2^24 % 8 == 0) 1 else 0
    pure val ok = c1 == 0 and c2 == 0 and ps.length() > 0
    pure val as = ps.foldl(ONE, (m, p) => minI(m, minI(ONE, haversine(LAT, 72044444 * ONE / 10^6, degF(p._1), degF(p._2)))))
    pure val km = 6371 * arc(as)
    { what: "main", nums: [x], tool: noise(h(seed, 43)).concat([{ s: "--- ", n: x, d: -2 }, lit("\n")]), tool2: printed(ps, h(seed, 44)),
      code: c1, code2: c2, ok: if (ok) 1 else if (c1 != 0 or c2 != 0) 0 else 2, given: [4, cfix(datum(11, 52, LAT)), cfix(datum(11, 52, 74044444 * ONE / 10^6))],
      res: if (ok) [km] else [], tol: if (ok) [ONE / 200 + 6371 * arcTol(as) + ONE / 10^9] else [] }
  }

  pure def mkRow(k: str, seed: int): Row =
    if (k == "tolatlng") centre(seed) else if (k == "toboundary") boundary(seed) else if (k == "cells") cells(seed)
    else if (k == "distance") distance(seed) else if (k == "main") program(seed) else locate(k, seed)

  action init = rows' = []
  action step = {
    nondet seed = 0.to(2^60).oneOf()
    nondet k = KINDS.indices().oneOf()
    rows' = range(0, BATCH).foldl([], (acc, i) => acc.append(mkRow(KINDS[k], seed * 4096 + i)))
  }
  // an answer is reported exactly when the tool exited well; distances lie between 0 and half a circumference
  def sane = rows.indices().forall(i => {
    val r = rows[i]
    and { r.res.length() == r.tol.length(), r.code != 0 implies r.ok == 0,
          r.what == "distance" implies (r.res[0] >= 0 and r.res[0] <= 6371000 * (PI + ONE / 2^100)) }
  })
}
