// Real proofs and their records.  A run proves, with a real proof system, that the public z is the result
// of an operation on two secret data; it succeeds exactly when z is that result.  Successful runs append
// one line to the file they were given, failed ones nothing; a new file starts with one header.  A statement
// can be slow to write down (define) or to solve (solve): the record must show that time where it was spent.
module bench {
  import ieee.* from "./ieee"
  import gen.* from "./gen"

  const FMTS: List[(int, int)]
  const HOWS: List[str]                      // how a run proves: "groth16" | "plonk" (recorded), "mem-groth16" | "mem-plonk" | "plain" (not)

  type Line = { res: int, idx: int, how: str, what: (str, int), define: int, solve: int }
  type Run = { how: str, op: str, E: int, M: int, x: int, y: int, z: int, file: int, res: int, idx: int, define: int, solve: int, ok: bool }
  pure val noRun: Run = { how: "start", op: "", E: 8, M: 23, x: 0, y: 0, z: 0, file: 0, res: 0, idx: 0, define: 0, solve: 0, ok: true }
  pure val GONE: int = 2                     // a file that cannot be opened
  var files: List[List[Line]]                // what the records must be
  var begun: List[bool]                      // the header is there
  var last: Run

  pure val OPS: List[str] = ["add", "sub", "mul", "div", "sqrt", "lt"]
  pure def apply(op: str, E: int, M: int, x: int, y: int): int =
    if (op == "add") fadd(E, M, x, y) else if (op == "sub") fsub(E, M, x, y) else if (op == "mul") fmul(E, M, x, y)
    else if (op == "div") fdivide(E, M, x, y) else if (op == "sqrt") fsqrt(E, M, x)
    else if (flt(E, M, x, y)) 1 else 0

  action init = all { files' = [[], []], begun' = [false, false], last' = noRun }
  action prove = {
    nondet seed = 0.to(2^60).oneOf()
    nondet w = HOWS.indices().oneOf()
    nondet o = OPS.indices().oneOf()
    nondet f = FMTS.indices().oneOf()
    nondet lie = 0.to(9).oneOf()
    nondet fl = 0.to(8).oneOf()
    pure val E = FMTS[f]._1
    pure val M = FMTS[f]._2
    pure val p = genPair(E, M, seed)
    pure val r = apply(OPS[o], E, M, p._1, p._2)
    pure val top = 2^(1 + E + M)
    pure val q = h(seed, 7)
    // a false claim: the neighbour, the other sign, another datum
    pure val z = if (lie > 4) r else if (OPS[o] == "lt") 1 - r else if (lie <= 1) (r + 1) % top else if (lie == 2) (r + top - 1) % top
      else if (lie == 3) fneg(E, M, r) else q % top
    pure val file = if (fl == 8) GONE else fl % 2
    pure val res = q / 16 % 16
    pure val idx = if (q % 3 == 0) 0 else if (q % 3 == 1) q / 2^10 % 2^40 else -(q / 2^10 % 100)
    pure val recorded = HOWS[w] == "groth16" or HOWS[w] == "plonk"
    pure val t = h(seed, 8)
    pure val define = if (t % 3 == 0) 20 + t / 4 % 40 else 0          // milliseconds
    pure val solve = if (t / 2^8 % 3 == 0) 20 + t / 2^10 % 40
      else if (recorded and E == 5 and t / 2^8 % 3 == 1) 1200 + t / 2^10 % 400 else 0  // longer than anything else
    pure val ok = (if (OPS[o] == "lt") z == r else same(E, M, z, r)) and not(recorded and file == GONE)
    all {
      last' = { how: HOWS[w], op: OPS[o], E: E, M: M, x: p._1, y: p._2, z: z, file: file, res: res, idx: idx, define: define, solve: solve, ok: ok },
      files' = if (recorded and file != GONE and ok) files.replaceAt(file, files[file].append({ res: res, idx: idx, how: HOWS[w], what: (OPS[o], E), define: define, solve: solve })) else files,
      begun' = if (recorded and file != GONE) begun.replaceAt(file, true) else begun
    }
  }
  action step = prove

  // records grow only at the end, only by the last run, and only if it succeeded
  def truthful = and {
    last.how == "start" or last.file == GONE or not(last.ok) or not(last.how == "groth16" or last.how == "plonk")
      or files[last.file][files[last.file].length() - 1] == { res: last.res, idx: last.idx, how: last.how, what: (last.op, last.E), define: last.define, solve: last.solve },
    files.indices().forall(i => files[i].length() == 0 or begun[i])
  }
}
