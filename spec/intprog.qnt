// Programs of signed integers over ONE integer gadget: a register file grows with every call, and the
// calls queue their range checks in the same collector.  The same register may be asked about again and
// again, under other declared lengths.  The finished program must accept exactly when every declared
// length holds, and then every register has exactly the integer computed here.
module intprog {
  import gen.* from "./gen"
  import ieee.* from "./ieee"

  const LEN: int
  const WIDTHS: List[int]

  // op applied to registers a, b; n: declared length, m: range-check mode or constant
  type Ins = { op: str, a: int, b: int, n: int, m: int, out: int }
  var rn: int
  var tabw: int               // table width of this program (0: the library chooses)
  var regs: List[int]
  var prog: List[Ins]
  var holds: bool              // every obligation so far is met
  var left: bool               // some obligation is met only up to the slack of a loose check
  var verdict: str             // "open" | "accept" | "reject" | "either"

  pure val SLACK: int = 18
  // 1: met, 0: broken, 2: left open
  pure def within(n: int, x: int): int =
    if (absI(x) < 2^n) 1 else if (absI(x) < 2^(n + SLACK)) 2 else 0
  pure def ranged(m: int, n: int, x: int): int =
    if (x >= 0 and x < 2^n) 1 else if (m == 0 and x >= 0 and x < 2^(n + SLACK)) 2 else 0

  // a declared length for x: mostly one that holds, often exactly, and seldom one that does not
  pure def declared(x: int, r: int, seldom: bool): int = {
    pure val l = bitLen(absI(x))
    pure val d = [0, 0, 0, 1, 2, 7, 19, 40, 0, 3][r % 10]
    pure val s = if (seldom and l > SLACK + 2 and r % 5 > 0) -1 - SLACK - (r / 32) % (l - SLACK - 1)
                 else if (seldom) -1 else d
    maxI(1, l + s)
  }
  // values of their own: small, around powers of two, long
  pure def fresh(seed: int): int = {
    pure val r = h(seed, 1)
    pure val k = (r / 8) % 100
    pure val s = (r / 2^16) % 5 - 2
    pure val c = r % 8
    pure val v = if (c == 1) s else if (c <= 3) 2^k + s else if (c == 4) 2^k - 1
      else if (c == 5) h(seed, 2) % 2^k else if (c == 6) (r / 2^20) % 300 else (r / 2^20) % 2^20
    if (isOdd(r / 2^30)) -v else v
  }

  action init = all { rn' = 0, tabw' = 0, regs' = [0, 1], prog' = [], holds' = true, left' = false, verdict' = "open" }

  action call(seed: int): bool = {
    pure val r = h(seed, 0)
    val nr = regs.length()
    // later registers more often, and often the very register asked about last
    val a = if (prog.length() > 0 and r % 3 == 0) prog[prog.length() - 1].a else (r / 4) % nr
    val b = (r / 2^10) % nr
    val x = regs[a]
    val y = regs[b]
    pure val k0 = (r / 2^20) % 24
    val k = if (prog.length() < 4) (if (k0 % 3 == 0) k0 / 4 else 23) else k0
    val seldom = holds and (r / 2^26) % 8 == 0
    pure val rl = h(seed, 3)
    val big = absI(x) > 2^120 or absI(y) > 2^120
    // the call, the registers it appends, and whether its obligation is met
    val e = { op: "", a: a, b: b, n: 0, m: 0, out: nr }
    val res: (Ins, List[int], int) =
      if (k <= 5) { val n = declared(x, rl, seldom)
                    (e.with("op", "abs").with("n", n), [absI(x), if (x >= 0) 1 else 0], within(n, x)) }
      else if (k <= 7) { val n = declared(x, rl, seldom)
                         (e.with("op", "pos").with("n", n), [if (x >= 0) 1 else 0], within(n, x)) }
      else if (k <= 9) { val n = declared(x - y, rl, seldom)
                         (e.with("op", "max").with("n", n), [maxI(x, y)], within(n, x - y)) }
      else if (k <= 11) { val n = declared(x - y, rl, seldom)
                          (e.with("op", "min").with("n", n), [minI(x, y)], within(n, x - y)) }
      else if (k == 12) (e.with("op", "eq"), [if (x == y) 1 else 0], 1)
      else if (k == 13 and x >= 0 and x <= 1 and y >= 0 and y <= 1) (e.with("op", "or"), [maxI(x, y)], 1)
      else if (k == 14 and x >= 0 and x < 8) (e.with("op", "pow2"), [2^x], 1)
      else if (k <= 17 and (x >= 0 or seldom)) { val n = declared(x, rl, seldom)
                         pure val m = (rl / 64) % 3
                         (e.with("op", "range").with("n", n).with("m", m), [], ranged(m, n, x)) }
      else if (k == 18 and not(big)) (e.with("op", "add"), [x + y], 1)
      else if (k == 19 and not(big)) (e.with("op", "sub"), [x - y], 1)
      else if (k == 20) (e.with("op", "neg"), [-x], 1)
      else if (k == 21) (e.with("op", "const").with("m", fresh(seed)), [fresh(seed)], 1)
      else (e.with("op", "in").with("m", fresh(seed)), [fresh(seed)], 1)
    all {
      rn' = rn, tabw' = tabw, verdict' = verdict,
      regs' = regs.concat(res._2), prog' = prog.append(res._1),
      holds' = (holds and res._3 != 0), left' = (left or res._3 == 2)
    }
  }
  action finish = all {
    rn' = rn, tabw' = tabw, regs' = regs, prog' = prog, holds' = holds, left' = left,
    verdict' = if (not(holds)) "reject" else if (left) "either" else "accept"
  }
  action again = {
    nondet w = WIDTHS.indices().oneOf()
    all { rn' = rn + 1, tabw' = WIDTHS[w], regs' = [0, 1], prog' = [], holds' = true, left' = false, verdict' = "open" }
  }
  action step =
    if (verdict != "open") again
    else if (prog.length() >= LEN) finish
    else { nondet seed = 0.to(2^60).oneOf()
           call(seed) }

  // what every answer must satisfy, whatever the program: |x| is x or -x and not negative, the sign says
  // which; the maximum is one of the two and at least both
  val answers = prog.indices().forall(i => {
    val p = prog[i]
    val x = regs[p.a]
    val y = regs[p.b]
    and {
      p.op == "abs" implies and { regs[p.out] >= 0, regs[p.out] == x or regs[p.out] == -x,
                                  regs[p.out + 1] == 1 implies regs[p.out] == x,
                                  regs[p.out + 1] == 0 implies (regs[p.out] == -x and x != 0) },
      p.op == "max" implies and { regs[p.out] == x or regs[p.out] == y, regs[p.out] >= x, regs[p.out] >= y },
      p.op == "min" implies and { regs[p.out] == x or regs[p.out] == y, regs[p.out] <= x, regs[p.out] <= y },
      p.op == "eq" implies (regs[p.out] == 1 iff x == y)
    }
  })
  val accounted = and { verdict == "accept" implies (holds and not(left)), verdict == "either" implies holds }
  val sound = answers and accounted
}
