// Conformance machine for single operations.  State: one operation applied to a batch of
// operands together with the outcome the specification prescribes.  `step` samples operands
// (corner biased); `sweep*` enumerates every operand (pair) of a small format.
module rows {
  import ieee.* from "./ieee"
  import gen.* from "./gen"

  const FMTS: List[(int, int)]   // formats (E, M)
  const OPS: List[str]
  const BATCH: int
  const SHARD: int               // sweeps: this process handles a == SHARD mod SHARDS
  const SHARDS: int

  var cfg: { op: str, E: int, M: int }
  var rows: List[List[int]]      // [a, b, result]
  var a: int                     // sweep position
  var pos: int                   // sweep: index of (format, op)

  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def apply(op: str, E: int, M: int, x: int, y: int): int =
    if (op == "add") fadd(E, M, x, y)
    else if (op == "sub") fsub(E, M, x, y)
    else if (op == "mul") fmul(E, M, x, y)
    else if (op == "div") fdivide(E, M, x, y)
    else if (op == "lt") b2i(flt(E, M, x, y))
    else if (op == "le") b2i(fle(E, M, x, y))
    else if (op == "gt") b2i(fgt(E, M, x, y))
    else if (op == "ge") b2i(fge(E, M, x, y))
    else if (op == "eq") b2i(same(E, M, x, y))
    else if (op == "sqrt") fsqrt(E, M, x)
    else if (op == "abs") fabs(E, M, x)
    else if (op == "neg") fneg(E, M, x)
    else if (op == "trunc") ftrunc(E, M, x)
    else if (op == "floor") ffloor(E, M, x)
    else if (op == "ceil") fceil(E, M, x)
    else if (op == "toint") toInt(E, M, x)      // x integral, see operands()
    else if (op == "sel") y % 2 * 0 + x
    else x                                       // "id": allocation
  pure def isBinary(op: str): bool = Set("add", "sub", "mul", "div", "lt", "le", "gt", "ge", "eq").contains(op)
  // ToInt's documented domain: integral data of moderate exponent
  pure def intDomain(E: int, M: int, x: int): bool =
    isFin(E, M, x) and expField(E, M, x) - bias(E) <= M + E and same(E, M, ftrunc(E, M, x), x)

  pure def operands(op: str, E: int, M: int, seed: int): (int, int) =
    if (op == "sqrt") (genUnary(E, M, seed), 0)
    else if (op == "trunc" or op == "floor" or op == "ceil") (genIntegral(E, M, seed), 0)
    else if (op == "toint") {
      pure val t = genIntegral(E, M, seed)
      pure val v = ftrunc(E, M, t)
      (if (intDomain(E, M, v)) v else 0, 0)
    }
    else if (op == "abs" or op == "neg" or op == "id") (gen1(E, M, seed, 20), 0)
    else genPair(E, M, seed)

  pure def batch(op: str, E: int, M: int, seed: int, n: int): List[List[int]] =
    range(0, n).foldl([], (acc, i) => {
      pure val o = operands(op, E, M, seed * 4096 + i)
      acc.append([o._1, o._2, apply(op, E, M, o._1, o._2)])
    })

  action init = all { cfg' = { op: "none", E: 0, M: 0 }, rows' = [], a' = SHARD, pos' = 0 }
  action step = {
    nondet seed = 0.to(2^60).oneOf()
    nondet f = FMTS.indices().oneOf()
    nondet o = OPS.indices().oneOf()
    all {
      cfg' = { op: OPS[o], E: FMTS[f]._1, M: FMTS[f]._2 },
      rows' = batch(OPS[o], FMTS[f]._1, FMTS[f]._2, seed, BATCH),
      a' = a, pos' = pos
    }
  }

  // ---- exhaustive sweep: one transition per (format, op, first operand) ------------------
  pure def sweepRows(op: str, E: int, M: int, x: int): List[List[int]] =
    if (isBinary(op))
      range(0, 2^width(E, M)).foldl([], (acc, y) => acc.append([x, y, apply(op, E, M, x, y)]))
    else if (op == "toint" and not(intDomain(E, M, x))) []
    else [[x, 0, apply(op, E, M, x, 0)]]
  def curF: (int, int) = FMTS[pos / OPS.length()]
  def curOp: str = OPS[pos % OPS.length()]
  action sweep = all {
    pos < FMTS.length() * OPS.length(),
    cfg' = { op: curOp, E: curF._1, M: curF._2 },
    rows' = sweepRows(curOp, curF._1, curF._2, a),
    if (a + SHARDS < 2^width(curF._1, curF._2)) all { a' = a + SHARDS, pos' = pos }
    else all { a' = SHARD, pos' = pos + 1 }
  }
}
