// -*- mode: Bluespec; -*-
// Trace validation of the traps: the history of everything that happened to the
// traps of one pixel while the code read out an image, as recorded from the
// real run, is followed step by step; `why` says what is not a behaviour of
// the specification (see harness/validate.py and harness/record.py).
module history {
  import fixed.* from "./fixed"
  import model.* from "./model"
  import readout.* from "./readout"
  import gen.* from "./gen"

  // "open": traps of a new pixel, with these groups of species in this CCD;
  // "transfer": a packet of n electrons meets one group of one phase for dt,
  // which hands back net electrons and then holds held; "save", "restore", "empty"
  type Record = { op: str, ph: int, g: int, n: int, dt: int, net: int, held: int, ccd: Ccd, groups: List[Mgr] }
  type St = { wells: List[Well], mgrs: List[List[Mgr]], cur: Traps, saved: Traps }
  pure val begin: St = { wells: [], mgrs: [], cur: [], saved: [] }

  pure def held(s: St, t: Traps): int =
    t.indices().fold(0, (a, ph) => a + t[ph].indices().fold(0, (b, g) => b + trapped(s.mgrs[ph][g], t[ph][g])))
  pure def tolerance(m: Mgr, x: int): int = (if (m.kind == "cont") S / 100000 else S / 100000000) + iabs(x) / 100000000
  pure def open(r: Record): St = {
    pure val none = tabulate2(r.ccd.frac.length(), _ => tabulate3(r.groups.length(), _g => []))
    { wells: r.ccd.well,
      mgrs: tabulate2(r.ccd.frac.length(), ph => tabulate3(r.groups.length(), g =>
        { kind: r.groups[g].kind, traps: tabulate(r.groups[g].traps.length(), i =>
          r.groups[g].traps[i].with("dens", fmul(r.groups[g].traps[i].dens, r.ccd.frac[ph]))) })),
      cur: none, saved: none }
  }
  pure def follow(s: St, r: Record): { st: St, why: str } =
    if (r.op == "open") { st: open(r), why: "" }
    else if (r.op == "save") { st: s.with("saved", s.cur), why: "" }
    else if (r.op == "restore") { st: s.with("cur", s.saved), why: "" }
    else if (r.op == "empty") { st: s.with("cur", tabulate2(s.mgrs.length(), ph => tabulate3(s.mgrs[ph].length(), _ => []))), why: "" }
    else {
      val m = s.mgrs[r.ph][r.g]
      val o = interact(m, s.wells[r.ph], s.cur[r.ph][r.g], r.n, r.dt)
      val tol = tolerance(m, r.n + r.held)
      { st: s.with("cur", set2(s.cur, r.ph, r.g, o.p)), why:
        if (r.n >= 0 and r.n + r.net < -tol) "more electrons captured than there were"
        else if (iabs(r.net - o.net) > tol) "electrons released and captured"
        else if (iabs(r.held - trapped(m, o.p)) > tol) "electrons in the traps"
        else if (not(profileOk(m, o.p))) "(the specification's own state is not one)"
        else "" }
    }
}
