// Allocation: which field elements name a float datum.  Exactly the encodings 0 .. 2^(1+E+M)-1 may
// enter a circuit; every other field element must be refused, whatever the prover answers.
module alloc {
  import ieee.* from "./ieee"
  import gen.* from "./gen"

  const P: int
  const FMTS: List[(int, int)]
  const BATCH: int

  var cfg: { E: int, M: int }
  var rows: List[List[int]]   // [v, verdict]

  pure def invPow(k: int): int = range(0, k).foldl(1, (a, _) => if (isOdd(a)) (a + P) / 2 else a / 2)
  pure def stray(E: int, M: int, seed: int): int = {
    pure val r = h(seed, 50)
    pure val w = width(E, M)
    pure val d = gen1(E, M, seed, 20)
    pure val s = (r / 16) % 5
    pure val k = (r / 256) % 40
    pure val c = r % 14
    if (c == 0) 2^w + s                               // just past the last encoding
    else if (c == 1) -1 - s                           // negative
    else if (c == 2) -1 - d
    else if (c == 3) 2^w + d                          // an encoding with one bit too many
    else if (c == 4) 2^(w + 1) + d
    else if (c == 5) 2^(w + k) + d                    // ... with a far bit
    else if (c == 6) (3 + s) * 2^(E + M) + d % 2^(E + M)   // a "sign" of 2, 3, ...
    else if (c == 7) fmod(d * invPow(1 + k), P)       // an encoding divided by a power of two
    else if (c == 8) fmod((2 * d + 1) * invPow(M), P)
    else if (c == 9) P - 2^(E + M) + d % 2^(E + M)    // sign -1
    else if (c == 10) fmod(d - 2^w * (1 + s), P)
    else if (c == 11) (P + 1) / 2 + s
    else if (c == 12) h(seed, 51) * 2^100 % P
    else d
  }
  pure def row(E: int, M: int, seed: int): List[int] = {
    pure val v = fmod(stray(E, M, seed), P)
    [v, if (v < 2^width(E, M)) 1 else 0]
  }
  action init = all { cfg' = { E: 0, M: 0 }, rows' = [] }
  action step = {
    nondet seed = 0.to(2^60).oneOf()
    nondet f = FMTS.indices().oneOf()
    all { cfg' = { E: FMTS[f]._1, M: FMTS[f]._2 },
          rows' = range(0, BATCH).foldl([], (acc, i) => acc.append(row(FMTS[f]._1, FMTS[f]._2, seed * 4096 + i))) }
  }
  // an admitted element names exactly one datum, and its canonical form names it back
  val oneName = rows.indices().forall(i => rows[i][1] == 1 implies
    (isCanonical(cfg.E, cfg.M, canon(cfg.E, cfg.M, rows[i][0]))
     and same(cfg.E, cfg.M, encode(cfg.E, cfg.M, canon(cfg.E, cfg.M, rows[i][0])), rows[i][0])))
}
