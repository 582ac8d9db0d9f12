// -*- mode: Bluespec; -*-
// State machine: EVERY history of up to DEPTH transfers, of packets and dwell
// times from a small alphabet, through the traps of one pixel.  It walks the
// tree of histories in order, so that each is one step from its predecessor.
module m_words {
  import fixed.* from "./fixed"
  import model.* from "./model"
  import gen.* from "./gen"

  const KIND: str        // of the traps
  const VARIANT: int     // of the pixel: number of species, notch, capture
  const DEPTH: int

  type Symbol = { n: int, dt: int }
  pure val well: Well = { fwd: 1000 * S, notch: if (VARIANT % 2 == 1) 40 * S else 0, pow: if (VARIANT / 2 == 1) milli(580) else S }
  pure val slow = KIND == "slow"
  pure val species: List[Trap] = [{ dens: 10 * S, rel: S, cap: if (slow) milli(300) else 0, sig: if (KIND == "cont") milli(500) else 0 }]
    .concat(if (KIND == "cont" or VARIANT % 2 == 0) [] else
      [{ dens: 4 * S, rel: 5 * S, cap: if (slow and VARIANT == 1) 2 * S else 0, sig: 0 }])
  pure val mgr: Mgr = { kind: KIND, traps: species }
  // none; a few electrons; two packets that differ; as much as the first and what it leaves behind; more than a full well; (a deficit)
  pure val packets = [0, S / 2, 150 * S, 600 * S, 1500 * S, -2 * S]
  pure val dwells = [milli(400), 3 * S]
  pure val SIZE = packets.length() * dwells.length()
  pure def symbol(i: int): Symbol = { n: packets[i % packets.length()], dt: dwells[i / packets.length()] }

  var pixel: { mgr: Mgr, ccd: Ccd, announced: int }    // (always the same)
  var word: List[int]                   // the history
  var path: List[Profile]               // the traps before each transfer of it, and after the last
  var event: { n: int, dt: int, net: int, held: int }

  // In order: the longer ones that start with this one, then those that differ in the last symbol, then in the one before ..
  pure def carry(w: List[int]): List[int] =
    w.foldl(w, (acc, _) => if (acc.length() > 0 and acc[acc.length() - 1] == SIZE - 1) acc.slice(0, acc.length() - 1) else acc)
  pure def successor(w: List[int]): List[int] =
    if (w.length() < DEPTH) w.append(0)
    else { pure val c = carry(w)
           if (c.length() == 0) [] else c.replaceAt(c.length() - 1, c[c.length() - 1] + 1) }

  pure def out(p: Profile, s: Symbol): Outcome = interact(mgr, well, p, s.n, s.dt)
  action go(w: List[int], ps: List[Profile]): bool = {
    val s = symbol(w[w.length() - 1])
    val o = out(ps[w.length() - 1], s)
    all { pixel' = { mgr: mgr, ccd: { frac: [S], well: [well] }, announced: if (VARIANT % 2 == 1) 1 else DEPTH }, word' = w, path' = ps.slice(0, w.length()).append(o.p),
          event' = { n: s.n, dt: s.dt, net: o.net, held: trapped(mgr, o.p) } }
  }
  action init = go([0], [[]])
  action step = if (successor(word).length() == 0) go([0], [[]]) else go(successor(word), path)

  val before = path[word.length() - 1]
  val after = path[word.length()]
  // C01, C02 for every one of these histories
  val chargeExchange = exchangeOk(mgr, before, event.n, { net: event.net, p: after })
  val occupancy = profileOk(mgr, after)
  // What the traps hold never exceeds what was put in
  val noGain = event.held <= word.foldl(0, (a, i) => a + imax(0, symbol(i).n)) + slackFor(mgr, 10000 * S)
  // Traps that are left alone only ever empty
  val emptying = (event.n == 0) implies event.held <= trapped(mgr, before) + slackFor(mgr, 10000 * S)
  val inv = and { chargeExchange, occupancy, noGain, emptying }
}
module words_slow0 { import m_words(KIND = "slow", VARIANT = 0, DEPTH = 3).* }
module words_slow1 { import m_words(KIND = "slow", VARIANT = 1, DEPTH = 3).* }
module words_slow2 { import m_words(KIND = "slow", VARIANT = 2, DEPTH = 3).* }
module words_slow3 { import m_words(KIND = "slow", VARIANT = 3, DEPTH = 3).* }
module words_instant0 { import m_words(KIND = "instant", VARIANT = 0, DEPTH = 3).* }
module words_instant1 { import m_words(KIND = "instant", VARIANT = 1, DEPTH = 3).* }
module words_instant2 { import m_words(KIND = "instant", VARIANT = 2, DEPTH = 3).* }
module words_instant3 { import m_words(KIND = "instant", VARIANT = 3, DEPTH = 3).* }
module words_time0 { import m_words(KIND = "time", VARIANT = 0, DEPTH = 3).* }
module words_time1 { import m_words(KIND = "time", VARIANT = 1, DEPTH = 3).* }
module words_cont0 { import m_words(KIND = "cont", VARIANT = 0, DEPTH = 2).* }
module words_cont1 { import m_words(KIND = "cont", VARIANT = 1, DEPTH = 2).* }
module deep_slow0 { import m_words(KIND = "slow", VARIANT = 0, DEPTH = 4).* }
module deep_slow1 { import m_words(KIND = "slow", VARIANT = 1, DEPTH = 4).* }
module deep_slow2 { import m_words(KIND = "slow", VARIANT = 2, DEPTH = 4).* }
module deep_slow3 { import m_words(KIND = "slow", VARIANT = 3, DEPTH = 4).* }
module deep_instant0 { import m_words(KIND = "instant", VARIANT = 0, DEPTH = 4).* }
module deep_instant1 { import m_words(KIND = "instant", VARIANT = 1, DEPTH = 4).* }
module deep_instant2 { import m_words(KIND = "instant", VARIANT = 2, DEPTH = 4).* }
module deep_instant3 { import m_words(KIND = "instant", VARIANT = 3, DEPTH = 4).* }
module deep_time0 { import m_words(KIND = "time", VARIANT = 0, DEPTH = 4).* }
module deep_time1 { import m_words(KIND = "time", VARIANT = 1, DEPTH = 4).* }
module deep_cont0 { import m_words(KIND = "cont", VARIANT = 0, DEPTH = 3).* }
module deep_cont1 { import m_words(KIND = "cont", VARIANT = 1, DEPTH = 3).* }
