// The ledger of a circuit's cost.  A context reports what its lookups will cost once the circuit is
// finished: so much per query made so far, so much once for the tables.  Together with the constraints
// already there this must be what the finished circuit has - whatever was called, in whatever order.
module ledger {
  const FMTS: List[(int, int)]
  const WIDTHS: List[int]
  const LEN: int

  // op, operands (earlier results), a number and a mode
  type Call = { op: str, x: int, y: int, n: int, mode: int }
  pure val noCall: Call = { op: "start", x: 0, y: 0, n: 0, mode: 0 }
  var circuit: int
  var fmt: (int, int)
  var w: int
  var calls: List[Call]
  var floats: int              // results there are
  var constants: bool          // constants are used: a lookup about something known already costs less than reported

  pure val BIN: List[str] = ["add", "sub", "mul", "div", "lt", "ge", "eq", "ulp", "add", "mul"]
  pure val UN: List[str] = ["sqrt", "trunc", "floor", "ceil", "abs", "neg", "toint"]
  pure val GAD: List[str] = ["range", "range", "range", "iabs", "ipos", "imax", "imin", "ieq", "ior", "pow2"]

  action fresh = {
    nondet f = FMTS.indices().oneOf()
    nondet b = WIDTHS.indices().oneOf()
    nondet cst = 0.to(3).oneOf()
    // every context has decoded a datum: both tables are in use
    all { fmt' = FMTS[f], w' = WIDTHS[b], calls' = [{ ...noCall, op: "new" }], floats' = 1, constants' = (cst == 0) }
  }
  action init = all { circuit' = 0, fresh }
  action restart = all { calls.length() >= LEN, circuit' = circuit + 1, fresh }
  action call(c: Call, k: int): bool = all {
    calls.length() < LEN, circuit' = circuit, fmt' = fmt, w' = w, calls' = calls.append(c), floats' = floats + k, constants' = constants
  }
  action step = any {
    restart,
    call({ ...noCall, op: "new" }, 1),
    all { constants, call({ ...noCall, op: "const", n: 1065353216 }, 1) },
    { nondet o = BIN.indices().oneOf()
      nondet i = 0.to(floats - 1).oneOf()
      nondet j = 0.to(floats - 1).oneOf()
      call({ ...noCall, op: BIN[o], x: i, y: j }, if (Set("add", "sub", "mul", "div").contains(BIN[o])) 1 else 0) },
    { nondet o = UN.indices().oneOf()
      nondet i = 0.to(floats - 1).oneOf()
      call({ ...noCall, op: UN[o], x: i }, if (UN[o] != "toint") 1 else 0) },
    { nondet o = GAD.indices().oneOf()
      nondet b = 1.to(60).oneOf()
      nondet m = 0.to(2).oneOf()
      call({ ...noCall, op: GAD[o], n: b, mode: m }, 0) },
  }
}
