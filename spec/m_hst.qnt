// -*- mode: Bluespec; -*-
// State machine: an archive of exposures by the Advanced Camera for Surveys of
// the Hubble Space Telescope, each corrected with the preset model for its date.
module m_hst {
  import fixed.* from "./fixed"
  import model.* from "./model"
  import roe.* from "./roe"
  import readout.* from "./readout"
  import gen.* from "./gen"

  // Julian dates
  pure val LAUNCH = 2452334 * S + S / 2
  pure val COOLED = 2453920 * S           // the detector's temperature was lowered
  pure val REPAIRED = 2454968 * S         // servicing mission 4
  pure val LATEST = 2462000 * S

  // The published model: species, their shares of the traps, their release
  // times (in units of the parallel clocking period) at -81 C
  pure val SHARES = [1270000, 3380000, 2850000]
  pure val RELEASE = [milli(740), milli(7700), milli(37000)]
  pure val GAP = [milli(310), milli(340), milli(440)]       // eV
  pure val BOLTZMANN = 8617343 * (S / 100000000000)         // eV / K
  pure val WARM = 196150 * (S / 1000)
  pure val COLD = 192150 * (S / 1000)
  pure val hundredMillionth = S / 100000000000
  pure def density(date: int): int =
    if (date < REPAIRED) micro(17845) + fmul(35488000 * hundredMillionth, date - LAUNCH)
    else fmul(micro(1011000), -micro(246591) + fmul(55898000 * hundredMillionth, date - LAUNCH))
  pure def releaseTime(i: int, date: int): int = {
    pure val t = if (date < COOLED) WARM else COLD
    fmul(fmul(RELEASE[i], fdiv(t, COLD)),
         fexp(fdiv(fmul(GAP[i], t - COLD), fmul(BOLTZMANN, fmul(COLD, t)))))
  }
  pure def speciesOn(date: int): List[Trap] = tabulate(3, i =>
    { dens: (density(date) * SHARES[i]) / 7500000, rel: releaseTime(i, date), cap: 0, sig: 0 })
  pure val detector: Ccd = { frac: [S], well: [{ fwd: 84700 * S, notch: 0, pow: milli(478) }] }
  pure def clocking(date: int, rows: int, express: int, offset: int): Dir = {
    on: true, mode: "imaging", isInt: false, first: true, between: true, force: true, nTransfers: 0, nPumps: 0,
    dwell: [S], ccd: detector, groups: [{ kind: "instant", traps: speciesOn(date) }], express: express, offset: offset,
    win: range(0, rows) }
  pure def offSerial(n: int): Dir = { ...clocking(LAUNCH, n, 0, 0), on: false, groups: [] }

  type Exposure = { date: int, valid: bool, img: Image, express: int, offset: int, iterations: int }
  var exposure: Exposure
  var traps: List[Trap]
  var out: Image

  pure def genDate(seed: int): int = {
    pure val c = pick(seed, 1, 12)
    if (c == 0) LAUNCH else if (c == 1) COOLED else if (c == 2) REPAIRED
    else if (c == 3) LAUNCH - between(seed, 2, 1, 4000) * S / 8
    else if (c == 4) LAUNCH + between(seed, 2, 1, 80) * S / 8
    else if (c < 7) pickFrom(seed, 3, [COOLED, REPAIRED]) + between(seed, 2, -16, 16) * S / 8
    else if (c < 9) LAUNCH + between(seed, 2, 0, 12684) * S / 8
    else if (c < 10) COOLED + between(seed, 2, 0, 8384) * S / 8
    else REPAIRED + between(seed, 2, 0, 50000) * S / 8
  }
  pure def genBright(seed: int, k: int): int = {
    pure val c = pick(seed, k, 10)
    if (c < 4) 0 else if (c < 6) between(seed, k + 50000, 1, 300) * S / 10 else if (c < 9) between(seed, k + 50000, 10, 3000) * S
    else between(seed, k + 50000, 3000, 90000) * S
  }
  pure def genExposure(seed: int): Exposure = {
    pure val date = genDate(seed)
    pure val rows = between(seed, 10, 2, 8)
    pure val cols = between(seed, 11, 1, 2)
    pure val hot = pick(seed, 12, rows)
    {
      date: date, valid: date >= LAUNCH,
      img: tabulate2(rows, r => tabulate3(cols, c =>
        if (r == hot and c == 0) between(seed, 13, 50, 50000) * S else genBright(seed, 1000 + 10 * r + c))),
      express: between(seed, 14, 0, rows), offset: if (chance(seed, 15, 60)) 0 else between(seed, 16, 1, 8),
      iterations: pickFrom(seed, 17, [0, 0, 0, 1, 2]),
    }
  }
  action step = {
    nondet seed = 0.to(2^40).oneOf()
    pure val e = genExposure(seed)
    pure val a: Args = { par: clocking(e.date, e.img.length(), e.express, e.offset), ser: offSerial(e.img[0].length()), tw: fullTime }
    all {
      exposure' = e,
      traps' = if (e.valid) speciesOn(e.date) else [],
      out' = if (not(e.valid)) e.img else if (e.iterations == 0) addCti(a, e.img) else removeCti(a, e.img, e.iterations),
    }
  }
  action init = step

  // ------------------------------------------------------------- properties --
  // C23: traps accumulate; the species keep their shares, and their order; the
  // temperature only matters until it was set
  pure def traps3(ts: List[Trap]): int = ts.foldl(0, (a, t) => a + t.dens)
  val accumulate = exposure.valid implies and {
    traps3(traps) > 0, traps.length() == 3,
    exposure.date + S < LATEST implies traps3(speciesOn(exposure.date + S)) > traps3(traps),
    iabs(traps3(traps) - density(exposure.date)) < 10,
  }
  val kept = exposure.valid implies and {
    traps.indices().forall(i => iabs(traps[i].dens * 7500000 - traps3(traps) * SHARES[i]) < 100000000),
    traps[0].rel < traps[1].rel and traps[1].rel < traps[2].rel,
    exposure.date >= COOLED implies traps.indices().forall(i => traps[i].rel == RELEASE[i]),
    traps.indices().forall(i => traps[i].cap == 0),
  }
  val trails = (exposure.valid and exposure.iterations == 0) implies
    exposure.img.indices().forall(r => exposure.img[r].indices().forall(c => out[r][c] >= 0))
  val inv = and { accumulate, kept, trails }
}
