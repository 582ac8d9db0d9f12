// -*- mode: Bluespec; -*-
// Clocking an image: the passes over every column of pixels, the transfers of
// each pixel's charge through the clock sequence, the carrying over of trap
// states, and add_cti / remove_cti built out of them.
module readout {
  import fixed.* from "./fixed"
  import model.* from "./model"
  import roe.* from "./roe"

  type Image = List[List[int]]           // rows of columns

  // One clocking direction as a user specifies it
  type Dir = {
    on: bool,
    mode: str,                           // "imaging", "injection" or "pumping"
    isInt: bool, first: bool, between: bool, force: bool,
    nTransfers: int, nPumps: int,
    dwell: List[int],
    ccd: Ccd,
    groups: List[Mgr],
    express: int, offset: int,
    win: List[int],                      // rows along the clocking direction
  }
  type TimeWindow = { t0: int, span: int }     // span 0: every transfer
  pure val fullTime: TimeWindow = { t0: 0, span: 0 }

  // ------------------------------------------------------------------ job ---
  type Traps = List[List[Profile]]             // [phase][group]
  type Job = {
    win: List[int], sched: Sched, seq: List[List[PhaseState]],
    lo: int, hi: int,                          // rows of padding before and after the image
    steps: List[int], phases: List[int],       // those with a dwell time, those with traps
    dwell: List[int], wells: List[Well],
    mgrs: List[List[Mgr]],                     // [phase][group]
    prs: List[List[List[Probs]]],              // [step][group][species]
    between: bool, pumped: bool, noTraps: Traps,
  }
  pure def nPhasesOf(d: Dir): int = if (d.mode == "pumping") d.dwell.length() / 2 else d.dwell.length()

  pure def scheduleOf(d: Dir, tw: TimeWindow): Sched =
    if (d.mode == "pumping") pumping(d.first, d.nPumps, d.express, d.win.length())
    else if (d.mode == "injection") injection(d.isInt, d.nTransfers, d.win, d.express, d.offset, tw.t0, tw.span)
    else imaging(d.isInt, d.first, d.win, d.express, d.offset, tw.t0, tw.span)

  pure def indicesWhere(l: List[int]): List[int] =
    range(0, l.length()).foldl([], (a, i) => if (l[i] > 0) a.append(i) else a)

  pure def jobOf(d: Dir, tw: TimeWindow): Job = {
    pure val seq = clockSeq(d.dwell.length(), nPhasesOf(d), d.mode != "pumping" and d.force)
    pure val acc = accessed(seq)
    {
      win: d.win, sched: scheduleOf(d, tw), seq: seq,
      lo: -setMin(acc), hi: setMax(acc),
      steps: indicesWhere(d.dwell), phases: indicesWhere(d.ccd.frac),
      dwell: d.dwell, wells: d.ccd.well,
      mgrs: d.ccd.frac.foldl([], (a, fr) => a.append(d.groups.foldl([], (b, g) => b.append(
        { kind: g.kind, traps: g.traps.foldl([], (c, t) => c.append(t.with("dens", fmul(t.dens, fr)))) })))),
      prs: d.dwell.foldl([], (a, dt) => a.append(d.groups.foldl([], (b, g) => b.append(
        if (g.kind == "cont") [] else probsOf(g, dt))))),
      between: d.mode == "pumping" or d.between, pumped: d.mode == "pumping",
      noTraps: d.ccd.frac.foldl([], (a, _) => a.append(d.groups.foldl([], (b, _g) => b.append([])))),
    }
  }

  // ------------------------------------------------------------- transfers --
  // booked: electrons handed to the image by the traps (times the multipliers);
  // clipped: electrons made when a packet would have gone negative
  // dry: a packet was used up (what floating point leaves of it may fill the pixel noticeably, if well_fill_power is small)
  type Column = { px: List[int], cur: Traps, saved: Traps, booked: int, clipped: int, dry: bool }
  pure val DRY = S / 1000000000

  pure def get2(t: Traps, ph: int, g: int): Profile = t[ph][g]
  pure def set2(t: Traps, ph: int, g: int, p: Profile): Traps = t.replaceAt(ph, t[ph].replaceAt(g, p))

  // One phase of pixel `row` at one step: its traps meet the packet, and what
  // they release (less what they capture) goes to the packet(s) it belongs to
  pure def meetPhase(job: Job, c: Column, row: int, mult: int, step: int, ph: int): Column = {
    pure val ps = job.seq[step][ph]
    pure val n = if (ps.high) c.px[job.lo + row + ps.cap] else 0
    pure val met = range(0, job.mgrs[ph].length()).foldl({ net: 0, cur: c.cur }, (a, g) => {
      pure val o = interactWith(job.mgrs[ph][g], job.wells[ph], get2(c.cur, ph, g), n, job.dwell[step], job.prs[step][g])
      { net: a.net + o.net, cur: set2(a.cur, ph, g, o.p) }
    })
    if (mult == 0) c.with("cur", met.cur)
    else {
      pure val share = (met.net * mult) / (job.sched.den * ps.rel.length())
      ps.rel.foldl(c.with("cur", met.cur), (a, q) => {
        pure val x = a.px[job.lo + row + q] + share
        { px: a.px.replaceAt(job.lo + row + q, imax(x, 0)), cur: a.cur, saved: a.saved,
          booked: a.booked + share, clipped: a.clipped + imax(0, -x), dry: a.dry or (x < DRY and (share < 0 or a.cur[ph].indices().exists(g => a.cur[ph][g].length() > 0))) }
      })
    }
  }
  pure def transferRow(job: Job, c: Column, k: int, i: int): Column = {
    pure val d = job.steps.foldl(c, (a, step) => job.phases.foldl(a, (b, ph) =>
      meetPhase(job, b, job.win[i], job.sched.mult[k][i], step, ph)))
    if (job.sched.save[k] == i) d.with("saved", d.cur)
    else if (job.pumped) d.with("saved", job.noTraps)      // done with this pixel
    else d
  }
  pure def beginPass(c: Column): Column = c.with("cur", c.saved)
  pure def endColumn(job: Job, c: Column): Column =
    if (job.between) { px: c.px, cur: job.noTraps, saved: job.noTraps, booked: c.booked, clipped: c.clipped, dry: c.dry }
    else c.with("saved", c.cur)

  pure def nPasses(job: Job): int = job.sched.mult.length()
  pure def zeros(n: int): List[int] = range(0, n).foldl([], (a, _) => a.append(0))
  pure def columnOf(img: Image, c: int): List[int] = img.foldl([], (a, row) => a.append(row[c]))
  pure def openColumn(job: Job, img: Image, col: int, saved: Traps): Column =
    { px: zeros(job.lo).concat(columnOf(img, col)).concat(zeros(job.hi)), cur: saved, saved: saved, booked: 0, clipped: 0, dry: false }
  pure def closeColumn(job: Job, img: Image, col: int, c: Column): Image =
    range(0, img.length()).foldl([], (a, r) => a.append(img[r].replaceAt(col, c.px[job.lo + r])))

  pure def runPass(job: Job, c: Column, k: int): Column =
    range(0, job.win.length()).foldl(beginPass(c), (a, i) => if (job.sched.mon[k][i]) transferRow(job, a, k, i) else a)
  pure def runColumn(job: Job, c: Column): Column =
    endColumn(job, range(0, nPasses(job)).foldl(c, (a, k) => runPass(job, a, k)))

  type Result = { img: Image, dry: bool }
  pure def clockImage(d: Dir, tw: TimeWindow, cols: List[int], img: Image): Result = {
    pure val job = jobOf(d, tw)
    pure val r = cols.foldl({ img: img, saved: job.noTraps, dry: false }, (a, col) => {
      pure val c = runColumn(job, openColumn(job, a.img, col, a.saved))
      { img: closeColumn(job, a.img, col, c), saved: c.saved, dry: a.dry or c.dry }
    })
    { img: r.img, dry: r.dry }
  }

  // ---------------------------------------------------------------- images --
  pure def transpose(img: Image): Image =
    range(0, img[0].length()).foldl([], (a, c) => a.append(columnOf(img, c)))

  type Args = { par: Dir, ser: Dir, tw: TimeWindow }

  // The rows that serial clocking reads out: those in the window which have
  // reached the serial register within the time window
  pure def serialRows(a: Args): List[int] =
    if (a.tw.span == 0) a.par.win
    else {
      pure val lo = imax(a.par.win[0], a.tw.t0 - a.par.offset)
      pure val hi = imin(a.par.win[a.par.win.length() - 1], a.tw.t0 + a.tw.span - 1 - a.par.offset)
      if (hi < lo) [] else range(lo, hi + 1)
    }
  pure def addCtiDry(a: Args, img: Image): Result = {
    pure val p = if (a.par.on) clockImage(a.par, a.tw, a.ser.win, img) else { img: img, dry: false }
    if (a.ser.on) {
      pure val s = clockImage(a.ser, fullTime, serialRows(a), transpose(p.img))
      { img: transpose(s.img), dry: p.dry or s.dry }
    } else p
  }
  pure def addCti(a: Args, img: Image): Image = addCtiDry(a, img).img
  pure def mapImage3(x: Image, y: Image, z: Image, f: (int, int, int) => int): Image =
    range(0, x.length()).foldl([], (a, i) => a.append(
      range(0, x[i].length()).foldl([], (b, j) => b.append(f(x[i][j], y[i][j], z[i][j])))))
  // One improvement of the estimate of the image before CTI was added
  pure def removeStep(a: Args, img: Image, est: Image): Image =
    mapImage3(est, img, addCti(a, est), (x, y, z) => x + y - z)
  pure def removeCti(a: Args, img: Image, iterations: int): Image =
    range(0, iterations).foldl(img, (est, _) => removeStep(a, img, est))

  pure def total(img: Image): int = img.foldl(0, (a, row) => a + sumList(row))

  // ------------------------------------------------------------ invariants --
  pure def trapsOk(job: Job, t: Traps): bool =
    t.indices().forall(ph => t[ph].indices().forall(g => profileOk(job.mgrs[ph][g], t[ph][g])))
}
