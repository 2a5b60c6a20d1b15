// A circuit program: a register file of float data built up by a history of library calls in ONE
// circuit with two contexts (of one or two formats).  Registers hold encodings; `last` names the call
// that produced the newest register.  Everything about a call is drawn from one seed.
module program {
  import ieee.* from "./ieee"
  import gen.* from "./gen"
  import rows(FMTS=[(8,23)], OPS=["add"], BATCH=1, SHARD=0, SHARDS=1) as R from "./rows"
  import asserts(FMTS=[(8,23)], OPS=["eq"], BATCH=1) as A from "./asserts"

  const FMTS: List[(int, int)]
  const LEN: int                  // calls per program
  const FALSE: bool               // programs may end in an assertion that does not hold

  // value: the datum in the new register; more: an integer the call yields besides, or a selector
  type Call = { op: str, x: int, y: int, u: int, v: int, value: int, more: int, how: int, ctx: int, asConst: bool }
  type Reg = { ctx: int, bits: int }
  pure val noCall: Call = { op: "start", x: 0, y: 0, u: 0, v: 0, value: 0, more: 0, how: 0, ctx: 0, asConst: false }
  var prog: int
  var fm: List[(int, int)]        // the formats of the two contexts
  var regs: List[Reg]
  var last: Call

  pure val BIN: List[str] = ["add", "sub", "mul", "div"]
  pure val UN: List[str] = ["sqrt", "abs", "neg", "trunc", "floor", "ceil"]
  pure val CMP: List[str] = ["lt", "le", "gt", "ge"]

  pure def datum(E: int, M: int, seed: int, rs: List[int]): int = {
    pure val r = h(seed, 11)
    pure val c = if (rs.length() == 0) 0 else r % 6
    pure val old = if (rs.length() == 0) 0 else rs[(r / 64) % rs.length()]
    if (c <= 1) gen1(E, M, seed, 20)
    else if (c == 2) genIntegral(E, M, seed)
    else if (c == 3) A::near(E, M, old, h(seed, 12))
    else gen2(E, M, old, seed, 30)
  }
  pure def pickCall(seed: int, fs: List[(int, int)], rs: List[Reg]): Call = {
    pure val r = h(seed, 0)
    pure val c = if (r % 3 == 0) 1 else 0
    pure val E = fs[c]._1
    pure val M = fs[c]._2
    pure val mine = rs.indices().filter(i => rs[i].ctx == c)
    pure val own = range(0, rs.length()).select(i => rs[i].ctx == c)
    pure val n = own.length()
    pure val k = (r / 4) % 32
    pure val base = { ...noCall, ctx: c }
    if (n == 0 or k <= 6) base.with("op", "load").with("value", datum(E, M, seed, own.foldl([], (l, i) => l.append(rs[i].bits)))).with("asConst", (r / 2^8) % 3 == 0)
    else {
      pure val q = h(seed, 1)
      // the newest registers are preferred: chains get deep
      pure val x = own[if (q % 3 == 0) n - 1 else (q / 4) % n]
      pure val y = own[(q / 2^12) % n]
      pure val u = own[(q / 2^20) % n]
      pure val v = own[(q / 2^28) % n]
      pure val a = rs[x].bits
      pure val b = rs[y].bits
      pure val e = base.with("x", x).with("y", y).with("u", u).with("v", v)
      if (k <= 15) e.with("op", BIN[k % 4]).with("value", R::apply(BIN[k % 4], E, M, a, b))
      else if (k <= 21) e.with("op", UN[k % 6]).with("value", R::apply(UN[k % 6], E, M, a, 0))
      else if (k <= 25) e.with("op", CMP[k % 4]).with("value", if (R::apply(CMP[k % 4], E, M, a, b) == 1) rs[u].bits else rs[v].bits)
      // selection by a constant, a free bit or a computed one
      else if (k <= 27) { pure val bit = (q / 2^36) % 2
        e.with("op", "pick").with("more", bit).with("how", (q / 2^37) % 4).with("value", if (bit == 1) rs[u].bits else rs[v].bits) }
      // assertions the program satisfies; the most recent partner but itself, if there is one
      else if (k <= 29) { pure val op = if (k == 28) "asserteq" else "assertulp"
        pure val p = own.select(i => i != x and (if (k == 28) same(E, M, a, rs[i].bits) else A::vUlp(E, M, a, rs[i].bits) == 1))
        pure val w = own.select(i => if (k == 28) not(same(E, M, a, rs[i].bits)) else A::vUlp(E, M, a, rs[i].bits) == 0)
        if (FALSE and w.length() > 0 and rs.length() >= 4 and (q / 2^36) % 2 == 0)
          e.with("op", if (k == 28) "falseeq" else "falseulp").with("y", w[(q / 2^40) % w.length()]).with("value", a)
        else e.with("op", op).with("y", if (p.length() == 0) x else p[p.length() - 1]).with("value", a) }
      else if (R::intDomain(E, M, a)) e.with("op", "toint").with("more", toInt(E, M, a)).with("value", a)
      else e.with("op", "trunc").with("value", R::apply("trunc", E, M, a, 0))
    }
  }
  pure def formats(seed: int): List[(int, int)] = {
    pure val f = FMTS[h(seed, 1) % FMTS.length()]
    [f, if (h(seed, 2) % 3 == 0) f else FMTS[h(seed, 3) % FMTS.length()]]
  }
  action init = {
    nondet seed = 0.to(2^60).oneOf()
    all { prog' = 0, fm' = formats(seed), regs' = [], last' = noCall }
  }
  action restart = {
    nondet seed = 0.to(2^60).oneOf()
    all { prog' = prog + 1, fm' = formats(seed), regs' = [], last' = noCall }
  }
  action advance = {
    nondet seed = 0.to(2^60).oneOf()
    val c = pickCall(seed, fm, regs)
    all { prog' = prog, fm' = fm, regs' = regs.append({ ctx: c.ctx, bits: c.value }), last' = c }
  }
  val over = regs.length() >= LEN or last.op == "falseeq" or last.op == "falseulp"
  action step = if (over) restart else advance

  // every datum a program can compute has a canonical circuit representation, and it names that datum
  val canonical = regs.indices().forall(i => {
    val E = fm[regs[i].ctx]._1
    val M = fm[regs[i].ctx]._2
    and { isCanonical(E, M, canon(E, M, regs[i].bits)), same(E, M, encode(E, M, canon(E, M, regs[i].bits)), regs[i].bits) }
  })
}
