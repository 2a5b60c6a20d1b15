// Life of the checks a circuit collects.  Calls queue obligations in a context; they are only turned
// into constraints when the circuit is finished.  The finished circuit must accept exactly the
// assignments that meet EVERY queued obligation of EVERY context, and a check that comes too late
// to be enforced must stop compilation instead of being dropped.
module lifecycle {
  const WIDTHS: List[int]
  const MAXLEN: int

  // src, src2, form: the value is computed from those of two earlier events (form < 0: it is an input of its own)
  type Ev = { ev: str, ctx: int, n: int, v: int, mode: int, src: int, src2: int, form: int }
  var rn: int
  var nctx: int
  var log: List[Ev]           // the history of this circuit
  var holds: bool             // all obligations queued so far are met by the assignment
  var left: bool              // whether some obligation is left open by the documentation (loose range checks)
  var late: bool              // a check was requested after its context was closed
  var verdict: str            // "open" | "accept" | "reject" | "refuse" | "either"

  pure val FM: List[(int, int)] = [(4, 3), (8, 23), (5, 5), (11, 52)]

  action init = all { rn' = 0, nctx' = 0, log' = [], holds' = true, left' = false, late' = false, verdict' = "open" }
  action rec(e: Ev, ok: bool, lt: bool): bool = record([e], ok, false, lt)
  action record(es: List[Ev], ok: bool, lf: bool, lt: bool): bool = {
    // few broken obligations per history, mostly one: a lost one is then the only reason to refuse
    nondet seldom = 0.to(5).oneOf()
    all {
    verdict == "open", log.length() < MAXLEN,
    ok or (if (holds) seldom < 3 else seldom == 0), not(lt) or seldom == 0,
    rn' = rn, log' = log.concat(es), holds' = (holds and ok), left' = (left or lf), late' = (late or lt), verdict' = "open"
  } }
  action newContext = {
    nondet f = FM.indices().oneOf()
    nondet w = WIDTHS.indices().oneOf()
    all { nctx < 3, nctx' = nctx + 1,
          rec({ ev: "context", ctx: nctx, n: f, v: WIDTHS[w], mode: 0, src: 0, src2: 0, form: -1 }, true, false) }
  }
  // a value is range-checked (in the body of the circuit, in a callback that runs before the
  // context is closed, or in one that runs after)
  action rangeCheck = all {
    nctx > 0,
    nondet c = 0.to(nctx - 1).oneOf()
    nondet b = 1.to(20).oneOf()
    nondet m = 0.to(2).oneOf()
    nondet d = Set(0, 1, 2, 3).oneOf()
    // mode 0 only promises the next limb boundary: use values clear of it
    pure val v = if (d == 0) 2^b - 1 else if (d == 1) 0 else if (d == 2) (if (m == 0) 2^(b + 18) else 2^b) else 2^(b - 1)
    all { nctx' = nctx, rec({ ev: "range", ctx: c, n: b, v: v, mode: m, src: 0, src2: 0, form: -1 }, d != 2, false) }
  }
  action earlyCheck = {
    nondet b = 1.to(20).oneOf()
    nondet ok = Set(true, true, false).oneOf()
    // a callback registered before the (next) context exists: it is enforced like any other check
    all { nctx < 3, nctx' = nctx + 1,
          rec({ ev: "early", ctx: nctx, n: b, v: if (ok) 2^b - 1 else 2^b, mode: 2, src: 0, src2: 0, form: -1 }, ok, false) }
  }
  action lateCheck = all {
    nctx > 0,
    nondet c = 0.to(nctx - 1).oneOf()
    nondet b = 1.to(20).oneOf()
    nondet p = Set("laterange", "latepow2").oneOf()
    all { nctx' = nctx, rec({ ev: p, ctx: c, n: b, v: 1, mode: 2, src: 0, src2: 0, form: -1 }, true, true) }
  }
  action pow2Query = all {
    nctx > 0,
    nondet c = 0.to(nctx - 1).oneOf()
    nondet e = (-1).to(9).oneOf()
    // every context's table has at least 8 entries: exponents 0..7 exist, -1 never does, 8 and 9
    // depend on the format
    pure val inTable = e >= 0 and e < 8
    all { e < 8, nctx' = nctx, rec({ ev: "pow2", ctx: c, n: 0, v: e, mode: 0, src: 0, src2: 0, form: -1 }, inTable, false) }
  }
  action absCall = all {
    nctx > 0,
    nondet c = 0.to(nctx - 1).oneOf()
    nondet b = 2.to(20).oneOf()
    nondet d = 0.to(4).oneOf()
    pure val v = if (d == 0) 0 else if (d == 1) -1 else if (d == 2) 1 - 2^b else if (d == 3) 2^b - 1 else 2^(b + 18)
    all { nctx' = nctx, rec({ ev: "abs", ctx: c, n: b, v: v, mode: 0, src: 0, src2: 0, form: -1 }, d != 4, false) }
  }
  action allocate = all {
    nctx > 0,
    nondet c = 0.to(nctx - 1).oneOf()
    nondet d = 0.to(3).oneOf()
    // an encoding of every format (E+M+1 >= 8 bits), or a number that encodes nothing
    pure val v = if (d == 0) 2^70 else if (d == 1) 0 else if (d == 2) 255 else 23
    all { nctx' = nctx, rec({ ev: "alloc", ctx: c, n: 0, v: v, mode: 0, src: 0, src2: 0, form: -1 }, d != 0, false) }
  }
  // ---- the same variable, or an expression of several, under further obligations
  pure def absV(x: int): int = if (x < 0) -x else x
  pure def bitLen(x: int): int = 0.to(79).filter(k => 2^k <= x).size()
  pure def expr(form: int, n: int, a: int, b: int): int =
    if (form == 0) a else if (form == 1) a + b else if (form == 2) a - b
    else if (form == 3) 2^n - 1 - a else 2 * a + 1
  // 1: met, 0: broken, 2: left open
  pure def met(what: str, m: int, n: int, x: int): int =
    if (what == "range") { if (x >= 0 and x < 2^n) 1 else if (m == 0 and x >= 0 and x < 2^(n + 18)) 2 else 0 }
    else if (what == "abs") { if (absV(x) < 2^n) 1 else if (absV(x) < 2^(n + 18)) 2 else 0 }
    else if (what == "alloc") { if (x >= 0 and x < 256) 1 else if (x < 0 or x >= 2^65) 0 else 2 }
    else { if (x >= 0 and x < 8) 1 else if (x < 0 or x > 64) 0 else 2 }      // powers of two
  action again1 = all {
    log.indices().exists(i => log[i].ev != "context"),
    nondet j = log.indices().filter(i => log[i].ev != "context").oneOf()
    nondet k = log.indices().filter(i => log[i].ev != "context").oneOf()
    nondet c = 0.to(nctx - 1).oneOf()
    nondet f = [0, 0, 0, 0, 1, 2, 3, 4].indices().oneOf()
    nondet what = Set("range", "range", "abs", "alloc", "pow2").oneOf()
    nondet m = 0.to(2).oneOf()
    nondet d = Set(-20, -1, 0, 0, 0, 1, 1, 20).oneOf()
    val form = [0, 0, 0, 0, 1, 2, 3, 4][f]
    val l = bitLen(absV(expr(form, 0, log[j].v, log[k].v)))
    val n = if (form == 3) (if (l > 1) l else 1) else (if (l + d > 1) l + d else 1)
    val x = expr(form, n, log[j].v, log[k].v)
    val ok = met(what, m, n, x)
    all { nctx > 0, nctx' = nctx,
          record([{ ev: what, ctx: c, n: n, v: x, mode: m, src: j, src2: k, form: form }], ok != 0, ok == 2, false) }
  }
  // one new variable under two checks in a row, of different strictness and length
  action twice = {
    nondet c = 0.to(nctx - 1).oneOf()
    nondet c2 = 0.to(nctx - 1).oneOf()
    nondet same = 0.to(2).oneOf()
    nondet b = 2.to(24).oneOf()
    nondet d = Set(-2, -1, 0, 1, 2, 8).oneOf()
    nondet d2 = Set(-2, -1, 0, 1, 2, 8).oneOf()
    nondet m = 0.to(2).oneOf()
    nondet m2 = 0.to(2).oneOf()
    pure val x = 2^b - 1
    pure val n = if (b + d > 0) b + d else 1
    pure val n2 = if (b + d2 > 0) b + d2 else 1
    pure val k1 = met("range", m, n, x)
    pure val k2 = met("range", m2, n2, x)
    all { nctx > 0, log.length() + 2 <= MAXLEN, nctx' = nctx,
          record([{ ev: "range", ctx: c, n: n, v: x, mode: m, src: 0, src2: 0, form: -1 },
                  { ev: "range", ctx: if (same > 0) c else c2, n: n2, v: x, mode: m2, src: log.length(), src2: 0, form: 0 }],
                 k1 != 0 and k2 != 0, k1 == 2 or k2 == 2, false) }
  }
  action finish = all {
    verdict == "open", log.length() > 0,
    rn' = rn, nctx' = nctx, log' = log, holds' = holds, left' = left, late' = late,
    verdict' = if (late) "refuse" else if (not(holds)) "reject" else if (left) "either" else "accept"
  }
  action again = all {
    verdict != "open",
    rn' = rn + 1, nctx' = 0, log' = [], holds' = true, left' = false, late' = false, verdict' = "open"
  }
  action step = if (verdict != "open") again
    else if (log.length() >= MAXLEN) finish
    else any { newContext, newContext, twice, twice, again1, again1, again1, again1, rangeCheck, rangeCheck, rangeCheck, pow2Query, pow2Query, absCall, absCall, allocate, allocate,
      earlyCheck, lateCheck, finish }

  // an accepted circuit has no unmet and no dropped obligation
  val nothingLost = verdict == "accept" implies (holds and not(late))
}
