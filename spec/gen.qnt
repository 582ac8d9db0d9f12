// -*- mode: Bluespec; -*-
// Generators: concrete users' inputs as deterministic functions of a seed.
module gen {
  import fixed.* from "./fixed"
  import model.* from "./model"
  import roe.* from "./roe"
  import readout.* from "./readout"

  // Build a list of n values, one per index.  (Copies, because Quint's
  // interpreter cannot nest calls of one higher-order operator.)
  pure def tabulate(n: int, f: (int) => a): List[a] = range(0, n).foldl([], (acc, i) => acc.append(f(i)))
  pure def tabulate2(n: int, f: (int) => a): List[a] = range(0, n).foldl([], (acc, i) => acc.append(f(i)))
  pure def tabulate3(n: int, f: (int) => a): List[a] = range(0, n).foldl([], (acc, i) => acc.append(f(i)))

  // k is a stream offset: generators of different things use disjoint ranges
  pure def genTrap(seed: int, k: int, kind: str): Trap = if (kind != "cont" and chance(seed, k + 6, 3))
    { dens: milli(130), rel: milli(250), cap: 0, sig: 0 }            // (the default)
  else {
    dens: if (chance(seed, k, 15)) logu(seed, k + 1, 1, 2) else if (chance(seed, k + 9, 4)) logu(seed, k + 1, -4, -2) else logu(seed, k + 1, -1, 1),
    // (the same few times come back in other combinations, also in other cases)
    rel: if (chance(seed, k + 7, 20)) pickFrom(seed, k + 2, [milli(500), S, 2 * S]) else logu(seed, k + 2, -1, 1),
    cap: if (kind != "slow" or chance(seed, k + 3, 15)) 0
         else if (chance(seed, k + 8, 20)) pickFrom(seed, k + 4, [milli(250), milli(500), S]) else logu(seed, k + 4, -2, 0),
    sig: if (kind == "cont") pickFrom(seed, k + 5, [milli(50), milli(200), milli(500), milli(1000), milli(1500)]) else 0,
  }
  pure def genMgr(seed: int, k: int, kind: str, maxSpecies: int): Mgr = {
    pure val n = between(seed, k, 1, maxSpecies)
    { kind: kind, traps: tabulate(n, i => genTrap(seed, k + 10 + 10 * i, kind)) }
  }
  // now and then: many more traps than electrons, or species much slower or faster than the readout
  pure def unusual(seed: int, m: Mgr, often: int): Mgr =
    if (m.kind == "cont") m
    else if (chance(seed, 20, often)) { ...m, traps: tabulate(m.traps.length(), i =>
      m.traps[i].with("dens", m.traps[i].dens * pickFrom(seed, 21, [100, 1000, 10000]))) }
    else if (chance(seed, 22, often)) { ...m, traps: m.traps.replaceAt(0, m.traps[0].with("rel",
      if (chance(seed, 23, 50)) m.traps[0].rel * 1000 else m.traps[0].rel / 200)) }
    else m
  pure def genWell(seed: int, k: int): Well = if (chance(seed, k + 4, 4)) { fwd: 10000 * S, notch: 0, pow: milli(580) } else {
    pure val fwd = pickFrom(seed, k, [200 * S, 500 * S, 1000 * S, 1000 * S, 2000 * S, 10000 * S, 84700 * S])
    { fwd: fwd,
      notch: if (chance(seed, k + 1, 60)) 0 else between(seed, k + 2, 1, 99) * S,
      pow: pickFrom(seed, k + 3, [S, S, milli(500), milli(580), milli(478), milli(800), milli(300), milli(1300)]) }
  }
  pure def genCcd(seed: int, k: int, nPhases: int, uniform: bool): Ccd = {
    frac: if (nPhases == 1) [if (uniform) S else pickFrom(seed, k, [S, S, S / 2, milli(300), milli(7)])]
          else {
            pure val fr = tabulate(nPhases, i => pickFrom(seed, k + i, [0, milli(200), milli(500), S / 4, milli(125), milli(200), milli(4)]))
            if (sumList(fr) == 0) fr.replaceAt(pick(seed, k + 20, nPhases), milli(500)) else fr
          },
    well: tabulate(nPhases, i => genWell(seed, if (uniform) k + 30 else k + 30 + 10 * i)),
  }
  pure def genDwell(seed: int, k: int, n: int): List[int] = {
    pure val l = tabulate(n, i => if (n > 1 and chance(seed, k + i, 15)) 0
                          else if (chance(seed, k + 50 + i, 20)) S
                          else if (chance(seed, k + 60 + i, 6)) logu(seed, k + 100 + i, -4, -2) else logu(seed, k + 100 + i, -1, 0))
    if (sumList(l) == 0) l.replaceAt(0, S) else l
  }
  pure def genPixel(seed: int, k: int): int = {
    pure val c = pick(seed, k, 10)
    if (c < 3) 0
    else if (c < 4) between(seed, k + 50000, 1, 30) * S / 10
    else if (c < 8) between(seed, k + 50000, 1, 300) * S
    else if (chance(seed, k + 51000, 92)) between(seed, k + 50000, 300, 3000) * S
    else between(seed, k + 50000, 3000, 150000) * S
  }
  // Mostly images with a few sources, which is where trails show; sometimes
  // dense ones; a few with the negative pixels of a bias-subtracted exposure
  pure def genImage(seed: int, k: int, rows: int, cols: int): Image = {
    pure val sparse = chance(seed, k - 1, 50)
    pure val negative = chance(seed, k - 2, 7)
    pure val hot = pick(seed, k - 3, rows)
    pure val hotc = pick(seed, k - 4, cols)
    tabulate2(rows, r => tabulate3(cols, c =>
      if (r == hot and c == hotc) between(seed, k + 30, 50, 3000) * S
      else if (sparse and chance(seed, k + 20000 + 40 * r + c, 65)) 0
      else if (negative and chance(seed, k + 30000 + 40 * r + c, 20)) -between(seed, k + 30, 1, 50) * S / 10
      else genPixel(seed, k + 100 + 40 * r + c)))
  }
}
