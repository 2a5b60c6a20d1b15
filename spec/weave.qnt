// Several circuits are built and proved side by side.  A schedule interleaves their builders call by
// call, the finishing of circuits and the proving of assignments.  No circuit may notice the others:
// the constraint system of a program is a function of that program alone, and a proved assignment has
// exactly the data IEEE-754 arithmetic gives for it, wherever in the schedule it is proved.
module weave {
  import ieee.* from "./ieee"
  import gen.* from "./gen"
  import rows(FMTS=[(8,23)], OPS=["add"], BATCH=1, SHARD=0, SHARDS=1) as R from "./rows"

  const FMTS: List[(int, int)]
  const WIDTHS: List[int]
  const TASKS: int
  const LEN: int
  pure val ALTS: int = 2          // assignments per task

  type Call = { op: str, x: int, y: int, asConst: bool }
  // regs: one register file per assignment
  type Task = { fmt: int, width: int, calls: List[Call], regs: List[List[int]], finished: bool }
  type Ev = { ev: str, task: int, alt: int }

  var rn: int
  var tasks: List[Task]
  var log: List[Ev]

  pure val OPS: List[str] = ["add", "sub", "mul", "div", "sqrt", "abs", "neg", "trunc", "floor", "ceil"]
  pure def fresh(seed: int): Task =
    { fmt: h(seed, 30) % FMTS.length(), width: WIDTHS[h(seed, 31) % WIDTHS.length()], calls: [], regs: range(0, ALTS).foldl([], (a, _) => a.append([])), finished: false }
  // tasks are often of one format and width: what they could share then looks alike
  pure def team(seed: int): List[Task] = {
    pure val k = fresh(seed)
    range(0, TASKS).foldl([], (a, i) => a.append(if (h(seed, 40 + i) % 3 == 0) fresh(seed + i) else k))
  }
  action init = {
    nondet seed = 0.to(2^60).oneOf()
    all { rn' = 0, tasks' = team(seed), log' = [] }
  }
  action emit(e: Ev, t: int, nt: Task): bool = all { rn' = rn, log' = log.append(e), tasks' = tasks.replaceAt(t, nt) }

  pure def value(E: int, M: int, c: Call, rs: List[int], seed: int, alt: int): int =
    if (c.op == "load") { if (c.asConst) gen1(E, M, seed, 20) else gen1(E, M, seed + alt * 7919, 20) }
    else R::apply(c.op, E, M, rs[c.x], if (c.op == "add" or c.op == "sub" or c.op == "mul" or c.op == "div") rs[c.y] else 0)

  action call = {
    nondet t = 0.to(TASKS - 1).oneOf()
    nondet seed = 0.to(2^60).oneOf()
    val k = tasks[t]
    val n = k.calls.length()
    pure val r = h(seed, 50)
    val c = if (n < 2 or r % 4 == 0) { op: "load", x: 0, y: 0, asConst: (r / 16) % 3 == 0 }
            else { op: OPS[(r / 64) % OPS.length()], x: (r / 1024) % n, y: (r / 2^14) % n, asConst: false }
    all { not(k.finished), n < LEN,
          emit({ ev: "call", task: t, alt: 0 }, t,
               { ...k, calls: k.calls.append(c),
                 regs: range(0, ALTS).foldl([], (a, i) => a.append(k.regs[i].append(value(FMTS[k.fmt]._1, FMTS[k.fmt]._2, c, k.regs[i], seed, i)))) }) }
  }
  action finishTask = {
    nondet t = 0.to(TASKS - 1).oneOf()
    val k = tasks[t]
    all { not(k.finished), k.calls.length() >= LEN, emit({ ev: "finish", task: t, alt: 0 }, t, { ...k, finished: true }) }
  }
  action proveOne = {
    nondet t = 0.to(TASKS - 1).oneOf()
    nondet a = 0.to(ALTS - 1).oneOf()
    all { tasks[t].finished, emit({ ev: "prove", task: t, alt: a }, t, tasks[t]) }
  }
  val complete = tasks.indices().forall(t => tasks[t].finished)
  action again = {
    nondet seed = 0.to(2^60).oneOf()
    all { rn' = rn + 1, tasks' = team(seed), log' = [] }
  }
  action step = if (complete and log.length() >= TASKS * (LEN + 1) + 4) again
    else any { call, call, call, call, finishTask, proveOne }

  // the schedule only orders events: every task sees exactly its own calls, in order, and is finished
  // once, after the last of them, before it is proved
  val isolated = tasks.indices().forall(t => and {
    log.indices().filter(i => log[i].task == t and log[i].ev == "call").size() == tasks[t].calls.length(),
    tasks[t].regs.indices().forall(a => tasks[t].regs[a].length() == tasks[t].calls.length()),
    log.indices().filter(i => log[i].task == t and log[i].ev == "finish").size() == (if (tasks[t].finished) 1 else 0),
    log.indices().forall(i => log.indices().forall(j =>
      (log[i].task == t and log[j].task == t and i < j) implies not(log[j].ev == "call" and log[i].ev != "call")))
  })
}
