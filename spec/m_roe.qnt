// -*- mode: Bluespec; -*-
// State machine: a user asking readout electronics for their schedules (which
// transfers are computed, how many each counts for, when traps are saved) and
// clock sequences, one question after another, at random or through a grid.
module m_roe {
  import fixed.* from "./fixed"
  import roe.* from "./roe"
  import gen.* from "./gen"

  const FOCUS: str       // "any", "time", "injection", "pumping"; "clock"; "grid", "gridtime", "gridinjection", "gridpumping"
  const SHARD: int       // of SHARDS, for the grids
  const SHARDS: int

  type Query = { mode: str, isInt: bool, first: bool, win: List[int], express: int, offset: int,
                 t0: int, span: int, nTransfers: int, nPumps: int, nSteps: int, nPhases: int, force: bool }
  var query: Query
  var sched: Sched
  var parts: List[List[List[int]]]       // multipliers for the pieces of a partition of the readout time
  var cuts: List[int]
  var seq: List[List[PhaseState]]
  var index: int                          // in the grid

  pure val blank: Query = { mode: "imaging", isInt: false, first: false, win: [0], express: 0, offset: 0, t0: 0, span: 0,
                            nTransfers: 0, nPumps: 1, nSteps: 1, nPhases: 1, force: false }
  pure def answer(q: Query): Sched =
    if (q.mode == "injection") injection(q.isInt, q.nTransfers, q.win, q.express, q.offset, q.t0, q.span)
    else if (q.mode == "pumping") pumping(q.first, q.nPumps, q.express, q.win.length())
    else imaging(q.isInt, q.first, q.win, q.express, q.offset, q.t0, q.span)

  pure def genWin(seed: int, k: int, n: int): List[int] = {
    pure val a = between(seed, k, 0, n - 1)
    if (chance(seed, k + 2, 50)) range(0, n) else if (chance(seed, k + 3, 15)) [n - 1] else range(a, n)
  }
  pure def genQuery(seed: int): Query = {
    pure val small = chance(seed, 1, 60)
    pure val n = between(seed, 2, 1, if (small) 9 else 24)
    pure val off = if (chance(seed, 3, 50)) 0 else between(seed, 4, 1, if (small) 6 else 20)
    pure val e = if (chance(seed, 5, 60)) between(seed, 6, 0, imin(n + off + 1, 9)) else between(seed, 6, 0, n + off + 1)
    pure val q = { ...blank, isInt: chance(seed, 7, 50), first: chance(seed, 8, 55), win: genWin(seed, 9, n), express: e, offset: off }
    pure val t0 = between(seed, 15, 0, n + off - 1)
    pure val timed = { ...q, t0: t0, span: if (chance(seed, 32, 8)) n + off + 5 else between(seed, 16, 1, n + off - t0) }
    // hundreds of pixels, in a few passes
    if ((FOCUS == "any" or FOCUS == "time") and chance(seed, 35, 4)) {
      pure val big = between(seed, 36, 100, 300)
      pure val far = if (chance(seed, 37, 50)) 0 else between(seed, 38, 1, 600)
      pure val v0 = between(seed, 15, 0, big + far - 1)
      { ...q, first: false, win: genWin(seed, 39, big), express: between(seed, 45, 1, 4), offset: far,
        t0: if (FOCUS == "time") v0 else 0, span: if (FOCUS == "time") between(seed, 16, 1, big + far - v0) else 0 }
    }
    else if (FOCUS == "time") { if (chance(seed, 17, 15)) { ...timed, mode: "injection" } else timed }
    else if (FOCUS == "injection") {
      pure val nt = if (chance(seed, 18, 30)) 0 else between(seed, 19, 1, 30)
      pure val full = if (nt == 0) n + off else nt
      pure val u0 = between(seed, 20, 0, full - 1)
      { ...q, mode: "injection", nTransfers: nt, express: between(seed, 21, 0, full + 1),
        t0: if (chance(seed, 22, 30)) u0 else 0,
        span: if (chance(seed, 22, 30)) between(seed, 23, 1, full - u0) else 0 }
    }
    else if (FOCUS == "pumping")
      { ...q, mode: "pumping", nPumps: between(seed, 24, 1, if (small) 12 else 400), express: between(seed, 25, 0, 14),
        win: if (chance(seed, 33, 60)) [between(seed, 26, 0, 9)] else { val a = between(seed, 26, 0, 9) range(a, a + between(seed, 34, 2, 4)) } }
    // numbers of transfers which share a factor with the express, though not evenly: where
    // floating point is not exact, though the numbers of transfers are whole
    else if (chance(seed, 28, 20)) {
      pure val p = pickFrom(seed, 29, [(30, 22), (30, 26), (36, 28), (45, 35), (46, 42), (50, 44), (54, 26), (58, 14), (58, 28), (58, 56)])
      pure val o = if (chance(seed, 30, 50)) 0 else between(seed, 31, 1, 5)
      { ...q, win: range(0, p._1 - o + (if (q.first) 1 else 0)), express: p._2, offset: o }
    }
    else if (chance(seed, 27, 20)) timed else q
  }

  // The grids, each without exception.
  // Imaging over n pixels (window: the last w of them), every express, offset, flag
  pure def imagingQuery(i: int): Query = {
    pure val n = 1 + (i % 6)
    pure val off = (i / 6) % 4
    pure val e = (i / 24) % 11
    pure val flags = (i / 264) % 4
    pure val w = (i / 1056) % 6
    { ...blank, isInt: flags % 2 == 1, first: flags / 2 == 1, win: range(imax(0, n - 1 - w), n), express: e, offset: off }
  }
  // Every time window of `full` transfers at most: number k of the pairs (t0, span) with t0 + span <= full
  pure def windowNumber(k: int, full: int): { t0: int, span: int } = {
    pure val c = k % (full * (full + 1) / 2)
    range(0, full).foldl({ t0: -1, span: c }, (a, t) =>
      if (a.t0 >= 0) a else if (a.span < full - t) { t0: t, span: a.span + 1 } else { t0: -1, span: a.span - (full - t) })
  }
  // Imaging over n pixels in every time window
  pure def timedQuery(i: int): Query = {
    pure val n = 1 + (i % 4)
    pure val off = (i / 4) % 3
    pure val e = (i / 12) % 6
    pure val flags = (i / 72) % 4
    pure val w = windowNumber(i / 288, n + off)
    { ...blank, isInt: flags % 2 == 1, first: flags / 2 == 1, win: range(0, n), express: e, offset: off, t0: w.t0, span: w.span }
  }
  // Charge injection over n pixels, any number of transfers, the whole time or the first or last few of them
  pure def injectionQuery(i: int): Query = {
    pure val n = 1 + (i % 3)
    pure val off = (i / 3) % 2
    pure val nt = (i / 6) % 7
    pure val e = (i / 42) % 8
    pure val isInt = (i / 336) % 2 == 1
    pure val full = if (nt == 0) n + off else nt
    pure val part = (i / 672) % 5
    pure val span = if (part == 0) 0 else imin(full, 1 + part / 2)
    { ...blank, mode: "injection", isInt: isInt, win: range(0, n), express: e, offset: off, nTransfers: nt,
      t0: if (part % 2 == 0 and part > 0) full - span else 0, span: span }
  }
  pure def pumpingQuery(i: int): Query = {
    pure val flags = (i / 288) % 4
    { ...blank, mode: "pumping", nPumps: 1 + (i % 16), express: (i / 16) % 18, isInt: flags % 2 == 1, first: flags / 2 == 1, win: if (i % 7 == 6) range(i % 3, i % 3 + 2) else [i % 3] }
  }
  pure val GRID = if (FOCUS == "grid") 6336 else if (FOCUS == "gridtime") 6048 else if (FOCUS == "gridinjection") 3360 else 1152
  pure def gridQuery(i: int): Query = if (FOCUS == "grid") imagingQuery(i) else if (FOCUS == "gridtime") timedQuery(i)
    else if (FOCUS == "gridinjection") injectionQuery(i) else pumpingQuery(i)
  pure def lastTransfer(q: Query): int = if (q.mode == "injection" and q.nTransfers > 0) q.nTransfers else maxOf(q.win) + 1 + q.offset
  pure def gridCuts(q: Query): List[int] = if (q.span == 0) [] else
    List(0).concat(if (q.t0 > 0) [q.t0] else []).concat([q.t0 + q.span]).concat(if (q.t0 + q.span < lastTransfer(q)) [lastTransfer(q)] else [])
  // Clock sequences: n phases 1..12, there and back or not, forced or not
  pure def clockQuery(i: int): Query = {
    pure val n = 1 + (i % 12)
    pure val pump = (i / 12) % 3 == 2
    { ...blank, mode: if (pump) "pumping" else "imaging", nPhases: n, nSteps: if (pump) 2 * n else n,
      force: (i / 12) % 3 == 1 }
  }

  pure def zeroTo(a: int, b: int): Set[int] = a.to(b)
  // Split the readout after transfers number c1 < c2 ..
  pure def partition(q: Query, cs: List[int]): List[List[List[int]]] =
    range(0, imax(0, cs.length() - 1)).foldl([], (a, i) => a.append(
      answer({ ...q, t0: cs[i], span: cs[i + 1] - cs[i] }).mult))
  pure def genCuts(seed: int, q: Query): List[int] = {
    pure val last = lastTransfer(q)
    pure val u = between(seed, 90, 1, last)
    pure val v = between(seed, 91, 1, last)
    pure val c1 = imin(u, v)
    pure val c2 = imax(u, v)
    List(0).concat(if (c1 < last) [c1] else []).concat(if (c2 < last and u != v) [c2] else []).concat([last])
  }

  action ask(q: Query, cs: List[int], i: int): bool = all {
    query' = q, sched' = answer(q), parts' = partition(q, cs), cuts' = cs,
    seq' = if (FOCUS == "clock") clockSeq(q.nSteps, q.nPhases, q.force) else [],
    index' = i,
  }
  action random = {
    nondet seed = 0.to(2^40).oneOf()
    pure val q = genQuery(seed)
    ask(q, if (FOCUS == "time" or FOCUS == "injection") genCuts(seed, q) else [], 0)
  }
  pure val gridded = FOCUS == "grid" or FOCUS == "gridtime" or FOCUS == "gridinjection" or FOCUS == "gridpumping"
  action askGrid(i: int): bool = ask(gridQuery(i), gridCuts(gridQuery(i)), i)
  action init = if (gridded) askGrid(SHARD)
    else if (FOCUS == "clock") ask(clockQuery(0), [], 0) else random
  action step = if (gridded) askGrid((index + SHARDS) % GRID)
    else if (FOCUS == "clock") ask(clockQuery((index + 1) % 36), [], (index + 1) % 36)
    else random

  // ------------------------------------------------------------- properties --
  pure def distance(q: Query, c: int): int =
    if (q.mode == "pumping") q.nPumps
    else if (q.mode == "injection") (if (q.nTransfers == 0) maxOf(q.win) + 1 + q.offset else q.nTransfers)
    else q.win[c] + 1 + q.offset
  // C08: every pixel is clocked exactly as many times as it is far from the readout
  val totals = query.win.indices().forall(c =>
    colSum(sched.mult, c) == sched.den * (if (query.span == 0) distance(query, c)
      else clip(distance(query, c) - query.t0, 0, query.span)))
  // ... in transfers that are never negative, and none of which is lost from sight
  val sane = sched.mult.indices().forall(k => sched.mult[k].indices().forall(c =>
    sched.mult[k][c] >= 0 and (sched.mult[k][c] > 0 implies sched.mon[k][c])))
  pure def wholeTime(q: Query): bool = q.span == 0
  // ... the first of which, for every packet, is on its own if the user says so
  val firstAlone = (query.mode == "imaging" and query.first and wholeTime(query)
      and effExpress(query.express, maxOf(query.win) + 1 + query.offset) < maxOf(query.win) + 1) implies
    query.win.indices().forall(c => {
      val ks = sched.mon.indices().filter(k => sched.mon[k][c])
      val k0 = ks.fold(1000000, (a, k) => imin(a, k))
      val all0 = ks.filter(k => sched.mult[k][c] == sched.den and c == firstTrue(sched.mon[k]))
      all0.size() >= 1
    })
  // ... in no more passes than were asked for
  val passes = {
    val e = effExpress(query.express, if (query.mode == "injection" and query.nTransfers > 0) query.nTransfers
      else if (query.mode == "pumping") query.nPumps else maxOf(query.win) + 1 + query.offset)
    if (query.mode == "pumping") sched.mult.length() == e * query.win.length() or sched.mult.length() == (e + 1) * query.win.length()
    else if (query.mode == "injection") sched.mult.length() == e
    else sched.mult.length() == e or (query.first and sched.mult.length() == maxOf(query.win) + 1 + query.offset)
  }
  // ... each of which works its way back along the pixels from where the last one started, or further back
  val staircase = (query.mode == "imaging" and not(query.first)) implies sched.mon.indices().forall(k =>
    range(0, query.win.length() - 1).indices().forall(c => sched.mon[k][c] implies sched.mon[k][c + 1]))
  // C10: the traps are saved in the row before the next pass begins
  val saves = (query.mode == "imaging") implies sched.save.indices().forall(k =>
    if (query.first or k == sched.save.length() - 1) sched.save[k] == -1
    else and {
      sched.save[k] < query.win.length(),
      sched.save[k] >= 0 implies sched.mon[k + 1][sched.save[k] + 1] and not(sched.mon[k + 1][sched.save[k]]),
    })
  // C09: the pieces of a partition of the time make up the whole
  val whole = parts.length() > 0 implies {
    val q = { ...query, t0: 0, span: 0 }
    val all1 = answer(q).mult
    all1.indices().forall(k => all1[k].indices().forall(c =>
      all1[k][c] == parts.foldl(0, (a, p) => a + p[k][c])))
  }
  // ... and what the traps see does not depend on it
  val sameTraps = query.span > 0 implies {
    val s = answer({ ...query, t0: 0, span: 0 })
    s.mon == sched.mon and s.save == sched.save
  }
  // C11. Phase p of pixel i is at -p in the coordinates where packet q is in
  // phase s of its pixel at q*n - s, s steps into the sequence.
  val np = query.nPhases
  val oneHigh = seq.indices().forall(s => seq[s].indices().filter(p => seq[s][p].high).size() == 1)
  val highCaptures = seq.indices().forall(s => seq[s].indices().forall(p =>
    seq[s][p].high implies seq[s][p].cap * np - stepPrime(np, s) == -p))
  val packetsMove = range(0, seq.length() - 1).indices().forall(s =>
    iabs(stepPrime(np, s + 1) - stepPrime(np, s)) == 1)
  pure def dist(nn: int, q: int, sp: int, p: int): int = iabs(q * nn - sp + p)
  pure def nearest(nn: int, sp: int, p: int): int = zeroTo(-2, 3).fold(1000000, (a, q) => imin(a, dist(nn, q, sp, p)))
  val releasedToNearest = seq.indices().forall(s => seq[s].indices().forall(p => {
    val sp = stepPrime(np, s)
    val shift = if (query.force and p > sp % np) 1 else 0
    val rs = seq[s][p].rel.foldl(Set(), (a, q) => a.union(Set(q - shift)))
    and {
      rs == zeroTo(-2, 3).filter(q => dist(np, q, sp, p) == nearest(np, sp, p)),
      rs.contains(seq[s][p].cap - shift),
    }
  }))
  // forced: never to a packet nearer to the readout than the pixel's own
  val neverForwards = (query.force and query.nSteps == query.nPhases) implies
    seq.indices().forall(s => seq[s].indices().forall(p =>
      seq[s][p].cap >= 0 and seq[s][p].rel.indices().forall(i => seq[s][p].rel[i] >= 0)))
  // there and back: the way back visits the same phases
  val thereAndBack = (query.nSteps == 2 * query.nPhases) implies
    seq.indices().forall(s => s > 0 implies seq[s] == seq[2 * np - s])
  val inv =
    if (FOCUS == "clock") and { oneHigh, highCaptures, packetsMove, releasedToNearest, neverForwards, thereAndBack }
    else and { totals, sane, firstAlone, passes, staircase, saves, whole, sameTraps }
}
module roe_any { import m_roe(FOCUS = "any", SHARD = 0, SHARDS = 1).* }
module roe_time { import m_roe(FOCUS = "time", SHARD = 0, SHARDS = 1).* }
module roe_injection { import m_roe(FOCUS = "injection", SHARD = 0, SHARDS = 1).* }
module roe_pumping { import m_roe(FOCUS = "pumping", SHARD = 0, SHARDS = 1).* }
module roe_clock { import m_roe(FOCUS = "clock", SHARD = 0, SHARDS = 1).* }
module roe_grid0 { import m_roe(FOCUS = "grid", SHARD = 0, SHARDS = 8).* }
module roe_grid1 { import m_roe(FOCUS = "grid", SHARD = 1, SHARDS = 8).* }
module roe_grid2 { import m_roe(FOCUS = "grid", SHARD = 2, SHARDS = 8).* }
module roe_grid3 { import m_roe(FOCUS = "grid", SHARD = 3, SHARDS = 8).* }
module roe_grid4 { import m_roe(FOCUS = "grid", SHARD = 4, SHARDS = 8).* }
module roe_grid5 { import m_roe(FOCUS = "grid", SHARD = 5, SHARDS = 8).* }
module roe_grid6 { import m_roe(FOCUS = "grid", SHARD = 6, SHARDS = 8).* }
module roe_grid7 { import m_roe(FOCUS = "grid", SHARD = 7, SHARDS = 8).* }
module roe_gridtime0 { import m_roe(FOCUS = "gridtime", SHARD = 0, SHARDS = 8).* }
module roe_gridtime1 { import m_roe(FOCUS = "gridtime", SHARD = 1, SHARDS = 8).* }
module roe_gridtime2 { import m_roe(FOCUS = "gridtime", SHARD = 2, SHARDS = 8).* }
module roe_gridtime3 { import m_roe(FOCUS = "gridtime", SHARD = 3, SHARDS = 8).* }
module roe_gridtime4 { import m_roe(FOCUS = "gridtime", SHARD = 4, SHARDS = 8).* }
module roe_gridtime5 { import m_roe(FOCUS = "gridtime", SHARD = 5, SHARDS = 8).* }
module roe_gridtime6 { import m_roe(FOCUS = "gridtime", SHARD = 6, SHARDS = 8).* }
module roe_gridtime7 { import m_roe(FOCUS = "gridtime", SHARD = 7, SHARDS = 8).* }
module roe_gridinjection0 { import m_roe(FOCUS = "gridinjection", SHARD = 0, SHARDS = 4).* }
module roe_gridinjection1 { import m_roe(FOCUS = "gridinjection", SHARD = 1, SHARDS = 4).* }
module roe_gridinjection2 { import m_roe(FOCUS = "gridinjection", SHARD = 2, SHARDS = 4).* }
module roe_gridinjection3 { import m_roe(FOCUS = "gridinjection", SHARD = 3, SHARDS = 4).* }
module roe_gridpumping0 { import m_roe(FOCUS = "gridpumping", SHARD = 0, SHARDS = 2).* }
module roe_gridpumping1 { import m_roe(FOCUS = "gridpumping", SHARD = 1, SHARDS = 2).* }
