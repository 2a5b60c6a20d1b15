// The H3 grid on the icosahedron, in exact-enough real arithmetic (module fix): nearest face,
// gnomonic radius, projection to the face plane, hexagon containing a plane point.  This is the
// mathematical definition of the grid, not the circuit's sequence of roundings; rows therefore carry the
// admissible error, and every outcome that is admissible within it.
module h3 {
  import ieee.* from "./ieee"
  import gen.* from "./gen"
  import fix.* from "./fix"

  const FMTS: List[(int, int)]
  const KINDS: List[str]
  const BATCH: int

  var kind: str
  var fmt: (int, int)
  var rows: List[{ args: List[int], cands: List[List[int]], tol: List[int] }]

  // ---- the grid's constants (units of 10^-18): face centres (latitude, longitude) and the azimuth
  // from each face centre to one of its vertices, as published for H3
  pure val GEO: List[(int, int)] = [
    (803582649718989942, 1248397419617396099), (1307747883455638156, 2536945009877921159),
    (1054751253523952054, -1347517358900396623), (600191595538186799, -450603909469755746),
    (491715428198773866, 401988202911306943), (172745327415618701, 1678146885280433686),
    (605929321571350690, 2953923329812411617), (427370518328979641, -1888876200336285401),
    (-79066118549212831, -733429513380867741), (-230961644455383637, 506495587332349035),
    (79066118549212831, 2408163140208925497), (230961644455383637, -2635097066257444203),
    (-172745327415618701, -1463445768309359553), (-605929321571350690, -187669323777381622),
    (-427370518328979641, 1252716453253507838), (-600191595538186799, 2690988744120037492),
    (-491715428198773866, -2739604450678486295), (-803582649718989942, -1893195233972397139),
    (-1307747883455638156, -604647643711872080), (-1054751253523952054, 1794075294689396615)]
  pure val AZIMUTH: List[int] = [
    5619958268523939882, 5760339081714187279, 780213654393430055, 430469363979999913,
    6130269123335111400, 2692877706530642877, 2982963003477243874, 3532912002790141181,
    3494305004259568154, 3003214169499538391, 5930472956509811562, 138378484090254847,
    448714947059150361, 158629650112549365, 5891865957979238535, 2711123289609793325,
    3294508837434268316, 3804819692245439833, 3664438879055192436, 2361378999196363184]
  pure val ROT: int = dec18(333473172251832115)             // rotation of odd resolutions: asin(sqrt(3/28))
  pure val RES0: int = 38196601125010500003 * ONE / 10^20   // half-edge of a resolution-0 cell on the face plane
  pure val SQRT7: int = sqrtF(7 * ONE)
  pure val SIN60: int = sqrtF(3 * ONE) / 2

  type Face = { c: List[int], sinLat: int, cosLat: int, sinLng: int, cosLng: int, sinAz: int, cosAz: int, sinRot: int, cosRot: int }
  pure def mkFace(f: int): Face = {
    pure val la = dec18(GEO[f]._1)
    pure val ln = dec18(GEO[f]._2)
    pure val az = dec18(AZIMUTH[f])
    { c: [mulF(cosF(la), cosF(ln)), mulF(cosF(la), sinF(ln)), sinF(la)],
      sinLat: sinF(la), cosLat: cosF(la), sinLng: sinF(ln), cosLng: cosF(ln),
      sinAz: sinF(az), cosAz: cosF(az), sinRot: sinF(az - ROT), cosRot: cosF(az - ROT) }
  }
  pure val FACE: List[Face] = range(0, 20).foldl([], (acc, f) => acc.append(mkFace(f)))
  pure def consts(f: int): List[int] = {
    pure val F = FACE[f]
    [F.sinLat, F.cosLat, F.sinLng, F.cosLng, F.sinAz, F.cosAz, F.sinRot, F.cosRot]
  }

  pure def dot(a: List[int], b: List[int]): int = mulF(a[0], b[0]) + mulF(a[1], b[1]) + mulF(a[2], b[2])
  pure def sqDist(a: List[int], b: List[int]): int = sqF(a[0] - b[0]) + sqF(a[1] - b[1]) + sqF(a[2] - b[2])
  pure def combine(a: List[int], k: int, b: List[int]): List[int] = [a[0] + mulF(k, b[0]), a[1] + mulF(k, b[1]), a[2] + mulF(k, b[2])]
  pure def unit(a: List[int]): List[int] = {
    pure val n = sqrtF(dot(a, a))
    if (n == 0) [ONE, 0, 0] else [divF(a[0], n), divF(a[1], n), divF(a[2], n)]
  }
  pure def ulp1(M: int): int = ONE / 2^M

  // ---- nearest face -------------------------------------------------------------------
  pure def dists(p: List[int]): List[int] = range(0, 20).foldl([], (acc, f) => acc.append(sqDist(p, FACE[f].c)))
  pure def minOf(l: List[int]): int = l.foldl(l[0], (m, x) => minI(m, x))
  pure def nearest(p: List[int], gap: int): List[int] = {
    pure val d = dists(p)
    pure val m = minOf(d)
    range(0, 20).foldl([], (acc, f) => if (d[f] <= m + gap) acc.append(f) else acc)
  }

  // ---- radius on the face plane: tan(angular distance) / RES0 * sqrt(7)^res -------------------
  pure def scale(res: int): int = if (res % 2 == 0) 7^(res / 2) * ONE else 7^(res / 2) * SQRT7
  // angular distance t: 1 - s/2 = cos t, so tan t = sqrt((4 - s) s) / (2 - s)
  pure def radius(s: int, res: int): int =
    mulF(divF(divF(sqrtF(mulF(4 * ONE - s, s)), 2 * ONE - s), RES0), scale(res))

  // ---- hexagons of unit width: centres at i + j*(-1/2) , j*sin60 ------------------------------
  pure def normalize(i: int, j: int, k: int): List[int] = {
    pure val m = minI(i, minI(j, k))
    [i - m, j - m, k - m]
  }
  pure def hexDist(x: int, y: int, i: int, j: int): int = sqF(x - i * ONE + j * ONE / 2) + sqF(y - j * SIN60)
  pure def around(x: int, y: int): List[(int, int)] = {
    pure val j0 = roundF(divF(y, SIN60))
    range(-1, 2).foldl([], (acc, dj) => {
      pure val j = j0 + dj
      pure val i0 = roundF(x + j * ONE / 2)
      acc.append((i0 - 1, j)).append((i0, j)).append((i0 + 1, j))
    })
  }
  // the hexagon(s) whose centre is nearest to (x, y), up to a position error of delta
  pure def hexes(x: int, y: int, delta: int): List[List[int]] = {
    pure val l = around(x, y)
    pure val m = l.foldl(hexDist(x, y, l[0]._1, l[0]._2), (a, c) => minI(a, hexDist(x, y, c._1, c._2)))
    l.foldl([], (acc, c) => if (hexDist(x, y, c._1, c._2) <= m + 2 * delta + sqF(delta) * 4) acc.append(normalize(c._1, c._2, 0)) else acc)
  }

  // ---- inputs -----------------------------------------------------------------------------
  pure def frac(r: int): int = (r % 2^80) * 2^80              // [0, 1)
  pure def tiny(M: int, r: int): int = {                     // +-2^-k, k = 2 .. M+6
    pure val t = ONE / 2^(2 + (r / 4) % (M + 5))
    if (r % 4 == 0) 0 else if (r % 2 == 0) t else -t
  }
  pure def sphere(r: int, q: int): List[int] = {              // uniform
    pure val z = 2 * frac(r) - ONE
    pure val l = 2 * mulF(PI, frac(q)) - PI
    pure val c = sqrtF(ONE - sqF(z))
    [mulF(c, cosF(l)), mulF(c, sinF(l)), z]
  }
  pure def point(M: int, seed: int): List[int] = {
    pure val r = h(seed, 60)
    pure val c = r % 9
    pure val f = FACE[(r / 16) % 20].c
    pure val g = FACE[(r / 512) % 20].c
    pure val k = FACE[(r / 2^14) % 20].c
    pure val u = sphere(h(seed, 61), h(seed, 62))
    pure val t = tiny(M, h(seed, 63))
    if (c <= 2) u
    else if (c == 3) unit(combine(f, t, u))                  // about a face centre
    else if (c == 4 or c == 5) unit(combine(f, ONE + t, g))  // about the border of two faces
    else if (c == 6) unit(combine(combine(f, ONE, g), ONE + t, k))
    else if (c == 7) unit(combine([[ONE, 0, 0], [0, ONE, 0], [0, 0, ONE], [-ONE, 0, 0], [0, -ONE, 0], [0, 0, -ONE]][(r / 16) % 6], t, u))
    else unit(combine(f, frac(h(seed, 64)), u))
  }
  pure def faceRow(E: int, M: int, seed: int): { args: List[int], cands: List[List[int]], tol: List[int] } = {
    pure val p = point(M, seed)
    pure val e = [datum(E, M, p[0]), datum(E, M, p[1]), datum(E, M, p[2])]
    pure val v = [valF(E, M, e[0]), valF(E, M, e[1]), valF(E, M, e[2])]
    { args: e,
      cands: nearest(v, 16 * ulp1(M)).foldl([], (acc, f) => acc.append([sqDist(v, FACE[f].c)].concat(consts(f)))),
      tol: range(0, 9).foldl([], (acc, i) => acc.append((if (i == 0) 4 else 2) * ulp1(M))) }
  }
  // squared distances up to the vertex of a face (0.4106...)
  pure def radiusRow(E: int, M: int, seed: int): { args: List[int], cands: List[List[int]], tol: List[int] } = {
    pure val r = h(seed, 65)
    pure val s0 = if (r % 4 == 0) frac(h(seed, 66)) / 2 / 2^((r / 64) % 60)
      else if (r % 4 == 1) ONE / 2^((r / 64) % 40 + 2) else mulF(frac(h(seed, 66)), 42 * ONE / 100)
    pure val e = datum(E, M, s0)
    pure val res = (r / 4) % 16
    pure val v = radius(valF(E, M, e), res)
    { args: [e, res], cands: [[v]], tol: [(5 + res) * ulpF(M, v)] }
  }
  pure def planeRow(E: int, M: int, seed: int): { args: List[int], cands: List[List[int]], tol: List[int] } = {
    pure val r = h(seed, 67)
    pure val res = r % 16
    pure val p = point(M, seed)
    pure val near = nearest(p, 0)[0]
    pure val f = if ((r / 16) % 4 == 0) (r / 64) % 20 else near
    pure val c = sqrtF(sqF(p[0]) + sqF(p[1]))
    pure val cl = if (c == 0) ONE else divF(p[0], c)
    pure val sl = if (c == 0) 0 else divF(p[1], c)
    pure val enc = [p[2], c, sl, cl].concat(consts(f)).concat([
      if ((r / 2^10) % 2 == 0) radius(minOf(dists(p)), res) else mulF(frac(h(seed, 68)), 2 * scale(res))])
      .foldl([], (acc, x) => acc.append(datum(E, M, x)))
    pure val v = enc.foldl([], (acc, x) => acc.append(valF(E, M, x)))
    // bearing from the face centre to the location, as a (not normalised) vector (north, east)
    pure val y = mulF(v[1], mulF(v[2], v[7]) - mulF(v[3], v[6]))
    pure val x = mulF(v[5], v[0]) - mulF(mulF(v[4], v[1]), mulF(v[3], v[7]) + mulF(v[2], v[6]))
    pure val z = sqrtF(sqF(x) + sqF(y))
    pure val sa = if (res % 2 == 1) v[10] else v[8]
    pure val ca = if (res % 2 == 1) v[11] else v[9]
    // at the face centre the bearing is undefined, but the point is at most the radius away
    if (z < 4 * ulp1(M)) {
      pure val t = absI(v[12]) + mulF(absI(v[12]), 8 * ulp1(M)) + 1
      { args: enc.append(res), cands: [[0, 0]], tol: [t, t] }
    } else {
      pure val t = mulF(absI(v[12]), divF(2 * ulp1(M), z) + 3 * ulp1(M)) + 1
      { args: enc.append(res),
        cands: [[mulF(v[12], divF(mulF(ca, x) + mulF(sa, y), z)), mulF(v[12], divF(mulF(sa, x) - mulF(ca, y), z))]],
        tol: [t, t] }
    }
  }
  pure def hexPoint(M: int, seed: int): (int, int) = {
    pure val r = h(seed, 70)
    pure val top = if (M <= 23) 18 else 22
    pure val b = 2^((r / 4096) % top)
    pure val i = h(seed, 71) % (2 * b + 1) - b
    pure val j = h(seed, 72) % (2 * b + 1) - b
    pure val c = r % 8
    pure val u = frac(h(seed, 73)) - ONE / 2
    pure val w = frac(h(seed, 74)) - ONE / 2
    pure val t = tiny(M - 4, h(seed, 75))
    // offset from a hexagon centre: anywhere, near the six corners / edges, near 0
    pure val o =
      if (c <= 2) (2 * u, 2 * w)
      else if (c == 3) (t, tiny(M - 4, h(seed, 76)))
      else if (c == 4) (t, (if (r / 8 % 2 == 0) 1 else -1) * SIN60 * 2 / 3 + tiny(M - 4, h(seed, 76)))    // corner
      else if (c == 5) (ONE / 2 + t, w)
      else if (c == 6) ((if (r / 8 % 2 == 0) 1 else -1) * ONE / 2 + t, (if (r / 16 % 2 == 0) 1 else -1) * SIN60 / 3 + tiny(M - 4, h(seed, 76)))
      else (ONE / 4 + t + mulF(u, SIN60), SIN60 / 2 - u / 2)
    (i * ONE - j * ONE / 2 + o._1, j * SIN60 + o._2)
  }
  pure def hexRow(E: int, M: int, seed: int): { args: List[int], cands: List[List[int]], tol: List[int] } = {
    pure val p = hexPoint(M, seed)
    pure val ex = datum(E, M, p._1)
    pure val ey = datum(E, M, p._2)
    pure val x = valF(E, M, ex)
    pure val y = valF(E, M, ey)
    { args: [ex, ey], cands: hexes(x, y, 3 * ulpF(M, absI(x) + absI(y)) + 4 * ulp1(M)), tol: [-1, -1, -1] }
  }
  pure def normRow(seed: int): { args: List[int], cands: List[List[int]], tol: List[int] } = {
    pure val r = h(seed, 77)
    pure def coord(q: int): int = {
      pure val b = 2^((q / 8) % 31)
      pure val v = (q / 2^14) % b
      if (q % 8 == 0) 0 else if (q % 8 == 1) b - 1 else if (q % 8 == 2) 1 else v
    }
    pure val a = coord(h(seed, 78))
    pure val b = if (r / 8 % 4 == 0) a else coord(h(seed, 79))
    pure val c = if (r / 32 % 4 == 0) b else if (r / 32 % 4 == 1) a else coord(h(seed, 80))
    pure val s = [r % 2, r / 2 % 2, r / 4 % 2]
    pure def sg(n: int, v: int): int = if (n == 1) -v else v
    { args: [s[0], a, s[1], b, s[2], c], cands: [normalize(sg(s[0], a), sg(s[1], b), sg(s[2], c))], tol: [-1, -1, -1] }
  }
  // ---- the whole way: latitude, longitude, resolution -> grid coordinates on the face ----------
  pure def plane(p: List[int], f: int, res: int): (int, int) = {
    pure val F = FACE[f]
    pure val c = sqrtF(sqF(p[0]) + sqF(p[1]))
    pure val cl = if (c == 0) ONE else divF(p[0], c)
    pure val sl = if (c == 0) 0 else divF(p[1], c)
    pure val y = mulF(c, mulF(sl, F.cosLng) - mulF(cl, F.sinLng))
    pure val x = mulF(F.cosLat, p[2]) - mulF(mulF(F.sinLat, c), mulF(cl, F.cosLng) + mulF(sl, F.sinLng))
    pure val z = sqrtF(sqF(x) + sqF(y))
    pure val r = radius(sqDist(p, F.c), res)
    pure val sa = if (res % 2 == 1) F.sinRot else F.sinAz
    pure val ca = if (res % 2 == 1) F.cosRot else F.cosAz
    if (z == 0) (0, 0)
    else (mulF(r, divF(mulF(ca, x) + mulF(sa, y), z)), mulF(r, divF(mulF(sa, x) - mulF(ca, y), z)))
  }
  pure def cellRow(E: int, M: int, seed: int): { args: List[int], cands: List[List[int]], tol: List[int] } = {
    pure val r = h(seed, 81)
    pure val res = (r / 8) % (if (M <= 23) 8 else 16)
    pure val p0 = point(M, seed)
    pure val c0 = sqrtF(sqF(p0[0]) + sqF(p0[1]))
    pure val la = datum(E, M, atan2F(p0[2], c0))
    pure val ln = datum(E, M, atan2F(p0[1], p0[0]))
    pure val lav = valF(E, M, la)
    pure val lnv = valF(E, M, ln)
    pure val ok = absI(lav) <= HALFPI - ulp1(M) * 2 and absI(lnv) <= PI - ulp1(M) * 4
    pure val p = [mulF(cosF(lav), cosF(lnv)), mulF(cosF(lav), sinF(lnv)), sinF(lav)]
    pure val fs = nearest(p, 24 * ulp1(M))
    pure val delta = 24 * mulF(ulp1(M), scale(res))
    if (not(ok)) { args: [], cands: [], tol: [] }
    else { args: [la, ln, res], tol: [-1, -1, -1],
      cands: fs.foldl([], (acc, f) => { pure val q = plane(p, f, res)
                                       acc.concat(hexes(q._1, q._2, delta)) }) }
  }
  // ---- local coordinates: within the base cell about a face centre they count from that centre -------
  pure def degDatum(x: int): int = {
    pure val d = datum(11, 52, absI(mulF(x, divF(180 * ONE, PI))))
    if (x < 0) d + 2^63 else d
  }
  pure def localRow(seed: int): { args: List[int], cands: List[List[int]], tol: List[int] } = {
    pure val r = h(seed, 83)
    pure val f = r / 16 % 20
    pure val res = r % 16
    pure def some(i: int): List[int] = {
      pure val u = sphere(h(seed, 84 + i), h(seed, 87 + i))
      pure val t = if (r / 2^10 % 4 == 0) ONE / 2^(r / 2^12 % 50 + 4) else frac(h(seed, 90 + i)) / 9
      pure val p = unit(combine(FACE[f].c, t, u))
      [degDatum(atan2F(p[2], sqrtF(sqF(p[0]) + sqF(p[1])))), degDatum(atan2F(p[1], p[0]))]
    }
    pure val a = some(0)
    pure val o = some(1)
    pure val la = mulF(valF(11, 52, a[0]), PI) / 180
    pure val ln = mulF(valF(11, 52, a[1]), PI) / 180
    pure val q = plane([mulF(cosF(la), cosF(ln)), mulF(cosF(la), sinF(ln)), sinF(la)], f, res)
    { args: [a[0], a[1], res, o[0], o[1]], tol: [-1, -1],
      cands: hexes(q._1, q._2, 24 * mulF(ulp1(52), scale(res))).foldl([], (acc, c) => acc.append([c[0] - c[2], c[1] - c[2]])) }
  }
  // a resolution is a number from 0 to 15: nothing is admissible for another one
  pure val P: int = 21888242871839275222246405745257275088548364400416034343698204186575808495617
  // (what: in the radius, in the orientation on the face plane, or in the whole chain)
  pure def resolutionRow(what: str, E: int, M: int, seed: int): { args: List[int], cands: List[List[int]], tol: List[int] } = {
    pure val r = h(seed, 82)
    pure val good = if (what == "resolution") radiusRow(E, M, seed) else if (what == "orientation") planeRow(E, M, seed) else cellRow(E, M, seed)
    pure val last = good.args.length() - 1
    pure val c = r % 4
    pure val bad = if (c == 0) 16 + (r / 4) % 40 else if (c == 1) P - 1 - (r / 4) % 20
      else if (c == 2) 16 + (r / 4) % 2^30 else (((r / 4) % 16) + P) / 2
    if (last < 0) good else { args: good.args.replaceAt(last, bad), cands: if (bad < 16) good.cands else [], tol: good.tol }
  }
  pure def mkRow(k: str, E: int, M: int, seed: int): { args: List[int], cands: List[List[int]], tol: List[int] } =
    if (k == "face") faceRow(E, M, seed) else if (Set("resolution", "orientation", "scale").contains(k)) resolutionRow(k, E, M, seed) else if (k == "radius") radiusRow(E, M, seed)
    else if (k == "plane") planeRow(E, M, seed) else if (k == "hex") hexRow(E, M, seed)
    else if (k == "cell") cellRow(E, M, seed) else if (k == "local") localRow(seed) else normRow(seed)

  // ---- the tables a circuit is built from: table number, index -> value -----------------------------
  pure def table(t: int, M: int): List[int] =
    if (t == 0) FACE.foldl([], (acc, F) => acc.concat(F.c))
    else if (t == 1) GEO.foldl([], (acc, g) => acc.append(dec18(g._2)))
    else if (t == 2) FACE.foldl([], (acc, F) => acc.append(F.cosLat))
    else if (t == 3) FACE.foldl([], (acc, F) => acc.append(F.sinLat))
    else if (t == 4) AZIMUTH.foldl([], (acc, a) => acc.append(dec18(a)))
    else if (t == 5) [SIN60, SQRT7, RES0, ROT]
    else [(if (M == 23) 8 else 11) * ONE, M * ONE, 15 * ONE]   // the format and the finest resolution
  // the row (t, -1) is about the number of entries
  pure def tableRows(M: int): List[{ args: List[int], cands: List[List[int]], tol: List[int] }] =
    range(0, 7).foldl([], (acc, t) => {
      pure val l = table(t, M)
      acc.concat([{ args: [t, -1], cands: [[l.length()]], tol: [-1] }])
         .concat(range(0, l.length()).foldl([], (a2, i) => a2.append({ args: [t, i], cands: [[l[i]]], tol: [ulpF(M, l[i]) + ulp1(M)] }))) })
  action tables = all { kind' = "table", fmt' = if (fmt == (8, 23)) (11, 52) else (8, 23), rows' = tableRows(if (fmt == (8, 23)) 52 else 23) }

  // ---- that this is an icosahedron in H3's orientation ------------------------------------------------
  pure val EPS: int = ONE / 10^15                                       // the published digits
  pure def near(a: int, b: int): bool = absI(a - b) <= EPS
  pure val ADJ: int = sqrtF(5 * ONE) / 3                               // cosine between neighbouring faces
  pure val VERT: int = sqrtF((5 * ONE + 2 * sqrtF(5 * ONE)) / 15)      // cosine between a face and its vertices
  pure def countNear(f: int, x: int): int = FACE.foldl(0, (n, g) => if (near(dot(FACE[f].c, g.c), x)) n + 1 else n)
  // the point at angular distance acos(VERT) from the centre of f in the direction of its azimuth
  pure def vertex(f: int): List[int] = {
    pure val F = FACE[f]
    pure val s = sqrtF(ONE - sqF(VERT))
    pure val north = [-mulF(F.sinLat, F.cosLng), -mulF(F.sinLat, F.sinLng), F.cosLat]
    pure val east = [-F.sinLng, F.cosLng, 0]
    pure val t = [mulF(F.cosAz, north[0]) + mulF(F.sinAz, east[0]), mulF(F.cosAz, north[1]) + mulF(F.sinAz, east[1]),
                  mulF(F.cosAz, north[2]) + mulF(F.sinAz, east[2])]
    [mulF(VERT, F.c[0]) + mulF(s, t[0]), mulF(VERT, F.c[1]) + mulF(s, t[1]), mulF(VERT, F.c[2]) + mulF(s, t[2])]
  }
  pure val ICOSAHEDRON: bool = range(0, 20).foldl(true, (ok, f) => and { ok,
      near(dot(FACE[f].c, FACE[f].c), ONE), countNear(f, ONE) == 1, countNear(f, ADJ) == 3, countNear(f, ONE / 3) == 6,
      countNear(f, -ONE / 3) == 6, countNear(f, -ADJ) == 3, countNear(f, -ONE) == 1,
      { pure val v = vertex(f)
        FACE.foldl(0, (n, g) => if (near(dot(v, g.c), VERT)) n + 1 else n) == 5 } })
  pure val ROTATION: bool = near(sqF(sinF(ROT)), 3 * ONE / 28)
  // half the width of the base cells on the face plane: (3 - sqrt 5) / 2
  def geometry: bool = ICOSAHEDRON and ROTATION and near(RES0, (3 * ONE - sqrtF(5 * ONE)) / 2)

  action init = all { kind' = "none", fmt' = (8, 23), rows' = [] }
  action step = {
    nondet seed = 0.to(2^60).oneOf()
    nondet f = FMTS.indices().oneOf()
    nondet k = KINDS.indices().oneOf()
    all { kind' = KINDS[k], fmt' = FMTS[f],
          rows' = range(0, BATCH).foldl([], (acc, i) => acc.append(mkRow(KINDS[k], FMTS[f]._1, FMTS[f]._2, seed * 4096 + i))) }
  }
}
