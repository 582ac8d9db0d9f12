// -*- mode: Bluespec; -*-
// State machine: the traps of one pixel (its phases, its groups of species)
// through an arbitrary history of transfers, savings, restorations and resets.
module m_traps {
  import fixed.* from "./fixed"
  import model.* from "./model"
  import readout.* from "./readout"
  import gen.* from "./gen"

  // What to generate: "slow", "instant", "time", "cont" (one manager in a
  // single phase, long histories), or "all" (several phases and groups)
  const FOCUS: str

  type Setup = { seed: int, ccd: Ccd, groups: List[Mgr], maxTransfers: int }
  // the last event and everything observable about it
  type Event = { op: str, ph: int, g: int, n: int, dt: int, net: int, held: int, total: int }

  var setup: Setup
  var mgrs: List[List[Mgr]]
  var cur: Traps
  var saved: Traps
  var event: Event
  var steps: int
  // history, for the accounting: electrons put in by captures minus released since the traps were last empty
  var ledger: int
  var savedLedger: int

  pure def kindsOf(seed: int): List[str] =
    if (FOCUS == "all") tabulate(between(seed, 1, 1, 3), i => pickFrom(seed, 2 + i, ["slow", "slow", "instant", "instant", "cont"]))
    else [FOCUS]
  // (sometimes all species of a manager of slow capture capture instantly)
  pure def promptly(seed: int, i: int, m: Mgr): Mgr = {
    pure val u = unusual(seed, m, 10)
    if (m.kind == "slow" and chance(seed, 24 + i, 12)) { ...u, traps: tabulate2(u.traps.length(), k => u.traps[k].with("cap", 0)) } else u
  }
  pure def setupOf(seed: int): Setup = {
    pure val nPh = if (FOCUS == "all") pickFrom(seed, 9, [1, 2, 3]) else 1
    pure val kinds = kindsOf(seed)
    { seed: seed,
      ccd: genCcd(seed, 100, nPh, chance(seed, 10, 50)),
      groups: tabulate3(kinds.length(), i => promptly(seed, i, genMgr(seed, 300 + 100 * i, kinds[i],
        if (kinds[i] == "cont") 1 else if (FOCUS == "time") 2 else 3))),
      maxTransfers: if (chance(seed, 11, 70)) 40 else between(seed, 12, 1, 4) }
  }
  pure def mgrsOf(s: Setup): List[List[Mgr]] =
    tabulate2(s.ccd.frac.length(), ph => tabulate3(s.groups.length(), g =>
      { kind: s.groups[g].kind, traps: tabulate(s.groups[g].traps.length(), i =>
        s.groups[g].traps[i].with("dens", fmul(s.groups[g].traps[i].dens, s.ccd.frac[ph]))) }))
  pure def noTrapsOf(s: Setup): Traps = tabulate2(s.ccd.frac.length(), _ => tabulate3(s.groups.length(), _g => []))
  pure def heldBy(ms: List[List[Mgr]], t: Traps): int =
    t.indices().fold(0, (a, ph) => a + t[ph].indices().fold(0, (b, g) => b + trapped(ms[ph][g], t[ph][g])))

  pure val noEvent: Event = { op: "init", ph: 0, g: 0, n: 0, dt: 0, net: 0, held: 0, total: 0 }

  action init = {
    nondet seed = 0.to(2^40).oneOf()
    pure val s = setupOf(seed)
    all {
      setup' = s, mgrs' = mgrsOf(s), cur' = noTrapsOf(s), saved' = noTrapsOf(s),
      event' = noEvent, steps' = 0, ledger' = 0, savedLedger' = 0,
    }
  }

  // Packets: none, a trace, of (nearly) the size of the last one, in the notch, up to several full wells
  pure def genPacket(seed: int, w: Well, last: int): int = {
    pure val c = pick(seed, 1, 20)
    if (c < 3) 0
    else if (c < 4) -between(seed, 2, 1, 20) * S
    else if (c < 5) last
    else if (c < 6) last + fmul(last, pickFrom(seed, 3, [-1, 1]) * logu(seed, 4, -7, -2))
    else if (c < 8) logu(seed, 2, -2, 0)
    else if (c < 10) w.notch + fmul(w.fwd - w.notch, milli(between(seed, 2, 1, 80)))
    else if (c < 12) logu(seed, 2, 0, 2)
    else if (c < 13) w.fwd + between(seed, 2, 0, 3) * w.fwd
    else w.notch + fmul(w.fwd - w.notch, milli(between(seed, 2, 1, 1000)))
  }


  action transfer(e: int): bool = {
    val ph = pick(e, 11, mgrs.length())
    val g = pick(e, 12, setup.groups.length())
    val n = genPacket(e, setup.ccd.well[ph], event.n)
    val dt = pickFrom(e, 13, [S, S, milli(500), logu(e, 14, -1, 1), logu(setup.seed, 15, -1, 0)])
    val o = interact(mgrs[ph][g], setup.ccd.well[ph], cur[ph][g], n, dt)
    val after = set2(cur, ph, g, o.p)
    all {
      cur' = after,
      ledger' = ledger - o.net,
      event' = { op: "transfer", ph: ph, g: g, n: n, dt: dt, net: o.net,
                 held: trapped(mgrs[ph][g], o.p), total: heldBy(mgrs, after) },
      steps' = steps + 1,
      setup' = setup, mgrs' = mgrs, saved' = saved, savedLedger' = savedLedger,
    }
  }
  action save: bool = all {
    saved' = cur, savedLedger' = ledger,
    event' = { ...event, op: "save", net: 0, total: heldBy(mgrs, cur) },
    setup' = setup, mgrs' = mgrs, cur' = cur, steps' = steps + 1, ledger' = ledger,
  }
  action restore: bool = all {
    cur' = saved, ledger' = savedLedger,
    event' = { ...event, op: "restore", net: 0, total: heldBy(mgrs, saved) },
    setup' = setup, mgrs' = mgrs, saved' = saved, steps' = steps + 1, savedLedger' = savedLedger,
  }
  action empty: bool = all {
    cur' = noTrapsOf(setup), ledger' = 0,
    event' = { ...event, op: "empty", net: 0, total: 0 },
    setup' = setup, mgrs' = mgrs, saved' = saved, steps' = steps + 1, savedLedger' = savedLedger,
  }
  action step = {
    nondet e = 0.to(2^40).oneOf()
    pure val c = pick(e, 0, 100)
    if (c < (if (FOCUS == "all") 70 else 97)) transfer(e)
    else if (FOCUS != "all") empty
    else if (c < 82) save
    else if (c < 94) restore
    else empty
  }

  // ------------------------------------------------------------ properties --
  // C01: charge only moves between a packet and the traps, and a packet is never overdrawn
  val chargeExchange = event.op == "transfer" implies and {
    event.n >= 0 implies event.n + event.net >= -slackFor(setup.groups[event.g], event.n + capacity(setup.groups[event.g])),
    event.net <= capacity(setup.groups[event.g]) + slackFor(setup.groups[event.g], capacity(setup.groups[event.g])),
    iabs(heldBy(mgrs, cur) - ledger) <= 1000 * slack(iabs(ledger) + 1000 * S + setup.groups.foldl(0, (a, m) => a + capacity(m))) + 1000 * setup.groups.foldl(0, (a, m) => imax(a, slackFor(m, 0))),
  }
  // C02: whatever the history, the occupancy of every trap is between empty and full
  val occupancy = and { stackOk({ mgrs: mgrs, cur: cur }), stackOk({ mgrs: mgrs, cur: saved }) }
  // C22: restoring gives back exactly what was saved; emptying leaves nothing
  val bookkeeping = and {
    event.op == "restore" implies (cur == saved and event.total == heldBy(mgrs, saved)),
    event.op == "save" implies cur == saved,
    event.op == "empty" implies heldBy(mgrs, cur) == 0,
  }
  val inv = and { chargeExchange, occupancy, bookkeeping }
  pure def stackOk(x: { mgrs: List[List[Mgr]], cur: Traps }): bool =
    x.cur.indices().forall(ph => x.cur[ph].indices().forall(g => profileOk(x.mgrs[ph][g], x.cur[ph][g])))
}
module traps_slow { import m_traps(FOCUS = "slow").* }
module traps_instant { import m_traps(FOCUS = "instant").* }
module traps_time { import m_traps(FOCUS = "time").* }
module traps_cont { import m_traps(FOCUS = "cont").* }
module traps_all { import m_traps(FOCUS = "all").* }
