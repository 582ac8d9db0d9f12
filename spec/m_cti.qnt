// -*- mode: Bluespec; -*-
// State machine: a whole image being read out, one express pass of one column
// of pixels at a time; parallel then serial clocking; and, for the removal of
// CTI, one iteration of the forward model after another.
module m_cti {
  import fixed.* from "./fixed"
  import model.* from "./model"
  import roe.* from "./roe"
  import readout.* from "./readout"
  import gen.* from "./gen"

  // What to generate (see genCase)
  const FOCUS: str

  // A second use of the code whose result has to do with that of the first:
  //   equal       the same result
  //   transposed  the result with rows and columns exchanged
  //   nearer      the same result in the rows nearer to the readout than `at`
  //   others      the same result in the columns other than `at`
  //   sequel      with the rest of the readout time, on the first result: that of `whole`
  //   scaled      `at` times the result
  //   asis        (no claim: what a listed defect of the code gives instead, see known_findings.json)
  type Twin = { claim: str, args: Args, whole: Args, img: Image, at: int }
  // iterations 0: add CTI.  mask: of a Frame ([] for a plain array), whose masked pixels always read 0
  type Case = { args: Args, img: Image, iterations: int, mask: List[List[bool]], twin: Twin }
  pure def unmasked(mask: List[List[bool]], image: Image): Image = if (mask.length() == 0) image else
    tabulate2(image.length(), r => tabulate3(image[r].length(), c => if (mask[r][c]) 0 else image[r][c]))
  var case: Case
  var twinOut: Image
  var dry: bool               // a packet was used up (see Column)
  var pool: int               // (FOCUS "session": the user's few electronics, CCDs and traps)
  var stage: str              // "par" or "ser" (clocking), or "done"
  var job: Job
  var img: Image              // clocked so far (transposed while stage is "ser")
  var todo: List[int]         // columns (or rows) still to be clocked, the first is being clocked
  var col: Column
  var pass: int
  var est: Image              // the image being clocked in this iteration
  var iteration: int
  var out: Image              // the result, when done
  var entry: int              // electrons in the column when it was opened

  // ------------------------------------------------------------- generation --
  pure def offDir(n: int): Dir = {
    on: false, mode: "imaging", isInt: false, first: false, between: true, force: false, nTransfers: 0, nPumps: 0,
    dwell: [S], ccd: { frac: [S], well: [{ fwd: 1000 * S, notch: 0, pow: S }] }, groups: [], express: 0, offset: 0,
    win: range(0, n) }

  pure def genKind(seed: int, k: int, cont: int): str =
    if (chance(seed, k, cont)) "cont" else pickFrom(seed, k + 1, ["slow", "slow", "instant"])
  pure def genGroups(seed: int, k: int, most: int, cont: int): List[Mgr] =
    tabulate3(between(seed, k, 1, most), i => {
      pure val kind = genKind(seed, k + 7 + 100 * i, cont)
      unusual(seed + k, genMgr(seed, k + 10 + 100 * i, kind, if (kind == "cont") 1 else 2), 3)
    })
  pure def genWindow(seed: int, k: int, n: int): List[int] = {
    pure val a = between(seed, k, 0, n - 1)
    pure val b = between(seed, k + 1, a, n - 1)
    if (chance(seed, k + 2, 45)) range(0, n) else if (chance(seed, k + 3, 20)) [a]
    else if (a == b and a > 0) range(a - 1, b + 1) else range(a, b + 1)
  }
  // Offsets and windows, where a focus is on something else
  pure def elsewhere(seed: int, a: Args, rows: int, cols: int, off: int, soff: int): Args = {
    par: { ...a.par, offset: if (a.par.on and chance(seed, 70, 20)) off else a.par.offset,
           win: if (chance(seed, 71, 20)) genWindow(seed, 72, rows) else a.par.win },
    ser: { ...a.ser, offset: if (a.ser.on and chance(seed, 76, 30)) soff else a.ser.offset,
           win: if (chance(seed, 77, 20)) genWindow(seed, 78, cols) else a.ser.win },
    tw: a.tw }

  // One clocking direction over n pixels with nPh phases
  pure def genDir(seed: int, k: int, n: int, nPh: int): Dir =
    if (nPh == 1 and chance(seed, k + 6, 8)) { ...genDir1(seed, k, n, nPh), isInt: false, first: true, between: true, dwell: [S] }
    else genDir1(seed, k, n, nPh)          // (8 %: the default electronics)
  pure def genDir1(seed: int, k: int, n: int, nPh: int): Dir = {
    on: true, mode: "imaging",
    isInt: chance(seed, k, 30), first: chance(seed, k + 1, 40), between: not(chance(seed, k + 2, 25)),
    force: nPh > 1 and chance(seed, k + 3, 50),
    nTransfers: 0, nPumps: 0,
    dwell: genDwell(seed, k + 10, nPh),
    ccd: genCcd(seed, k + 300, nPh, chance(seed, k + 4, 50)),
    groups: genGroups(seed, k + 500, 2, 0),
    express: between(seed, k + 5, 0, n + 1), offset: 0, win: range(0, n),
  }

  pure def noTwin(a: Args): Twin = { claim: "", args: a, whole: a, img: [], at: 0 }

  // the same traps, listed in another way
  pure def reverse2(l: List[a]): List[a] = range(0, l.length()).foldl([], (acc, i) => acc.append(l[l.length() - 1 - i]))
  pure def reverse3(l: List[a]): List[a] = range(0, l.length()).foldl([], (acc, i) => acc.append(l[l.length() - 1 - i]))
  pure def otherForm(seed: int, gs: List[Mgr]): List[Mgr] = {
    pure val how = pick(seed, 60, 5)
    if (how == 0) reverse2(gs)                                           // groups in another order
    else if (how == 1) tabulate(gs.length(), i => { ...gs[i], traps: reverse3(gs[i].traps) })
    else if (how == 2) tabulate(gs.length(), i => {                      // half of one species, and the other half
      ...gs[i], traps: [{ ...gs[i].traps[0], dens: gs[i].traps[0].dens / 2 }, { ...gs[i].traps[0], dens: gs[i].traps[0].dens - gs[i].traps[0].dens / 2 }]
        .concat(gs[i].traps.slice(1, gs[i].traps.length())) })
    else if (how == 3) tabulate(gs.length(), i => {                      // a species there are none of
      ...gs[i], traps: gs[i].traps.append({ dens: 0, rel: S, cap: if (gs[i].kind == "slow") S / 10 else 0, sig: 0 }) })
    else gs.append({ kind: "slow", traps: [{ dens: 0, rel: S, cap: S / 10, sig: 0 }] })
  }
  pure def scaleTraps(g: Mgr, x: int): Mgr = { kind: g.kind, traps: tabulate2(g.traps.length(), i => g.traps[i].with("dens", g.traps[i].dens * x)) }
  pure def slowerTraps(g: Mgr, x: int): Mgr = { kind: g.kind, traps: tabulate2(g.traps.length(), i =>
    { ...g.traps[i], rel: g.traps[i].rel * x, cap: g.traps[i].cap * x }) }
  // another unit of charge, another unit of time
  pure def scaleDir(d: Dir, x: int): Dir = { ...d,
    groups: tabulate3(d.groups.length(), i => scaleTraps(d.groups[i], x)),
    ccd: { frac: d.ccd.frac, well: tabulate3(d.ccd.well.length(), i =>
      { fwd: d.ccd.well[i].fwd * x, notch: d.ccd.well[i].notch * x, pow: d.ccd.well[i].pow }) } }
  pure def slowerDir(d: Dir, x: int): Dir = { ...d,
    groups: tabulate3(d.groups.length(), i => slowerTraps(d.groups[i], x)),
    dwell: tabulate3(d.dwell.length(), i => d.dwell[i] * x) }
  pure def scaleImage(img: Image, x: int): Image = tabulate2(img.length(), i => tabulate3(img[i].length(), j => img[i][j] * x))

  pure def twinOf(seed: int, a: Args, img: Image, iterations: int): Twin = {
    pure val rows = img.length()
    pure val cols = img[0].length()
    pure val t = noTwin(a)
    if (FOCUS == "forms") {
      pure val how = pick(seed, 61, 6)
      pure val d = if (a.par.on) a.par else a.ser
      pure val e = if (how < 4) { ...d, groups: otherForm(seed, d.groups) } else if (how == 4) scaleDir(d, 2) else slowerDir(d, 3)
      pure val b = if (a.par.on) { ...a, par: e } else { ...a, ser: e }
      if (how == 4) { ...t, claim: "scaled", at: 2, img: scaleImage(img, 2), args: b } else { ...t, claim: "equal", img: img, args: b }
    }
    else if (FOCUS == "columns" and a.par.on and a.par.between) {
      pure val c = pick(seed, 62, cols)
      { ...t, claim: "others", at: c, img: tabulate2(rows, r => img[r].replaceAt(c, genPixel(seed, 700000 + r))) }
    }
    else if (FOCUS == "image") {
      pure val r0 = between(seed, 62, 0, rows - 1)
      { ...t, claim: "nearer", at: r0, img: tabulate2(rows, r => tabulate3(cols, c =>
          if (r < r0) img[r][c] else genPixel(seed, 700000 + 40 * r + c))) }
    }
    else if (FOCUS == "both" and not(a.par.on) and a.tw.span == 0)
      { ...t, claim: "transposed", img: transpose(img), args: { par: a.ser, ser: { ...offDir(rows), win: serialRows(a) }, tw: fullTime } }
    else if (FOCUS == "time" and a.par.first and a.par.between and a.par.mode == "imaging" and a.tw.t0 == 0
        and effExpress(a.par.express, maxOf(a.par.win) + 1 + a.par.offset) == maxOf(a.par.win) + 1 + a.par.offset
        and a.tw.span < maxOf(a.par.win) + 1 + a.par.offset)
      { ...t, claim: "sequel", whole: { ...a, tw: fullTime },
        args: { ...a, tw: { t0: a.tw.span, span: maxOf(a.par.win) + 1 + a.par.offset - a.tw.span } } }
    else if (FOCUS == "pumping" and a.par.on and not(a.ser.on) and a.par.win.length() > 1 and iterations == 0) {
      // the pixels one after the other
      pure val i = between(seed, 63, 1, a.par.win.length() - 1)
      { ...t, claim: "sequel", whole: a, args: { ...a, par: { ...a.par, win: a.par.win.slice(i, a.par.win.length()) } }, at: i }
    }
    else if (FOCUS == "injection" and a.tw.span == 0 and a.par.nTransfers > rows + a.par.offset)
      { ...t, claim: "asis", img: img, args: { ...a, tw: { t0: 0, span: rows + a.par.offset } } }
    else t
  }

  pure def genCase(seed: int, pl: int): Case = {
    pure val many = FOCUS == "multi" and chance(seed, 43, 12)       // phases
    pure val tall = FOCUS == "large" and chance(seed, 46, 25)
    // hundreds of pixels, of which only a few are clocked
    pure val vast = FOCUS == "vast" or (FOCUS == "large" and not(tall) and chance(seed, 51, 35))
    pure val wide = (vast and chance(seed, 52, 40))       // (clocked along the rows)
      or (FOCUS == "columns" and chance(seed, 51, 5))
    pure val extent = if (chance(seed, 57, 50)) between(seed, 53, 130, 260) else between(seed, 53, 261, 600)
    pure val few = between(seed, 54, 1, 5)
    pure val start = imin(extent - few, pickFrom(seed, 55, [extent - few, extent - few, 126, 254, between(seed, 56, 0, extent)]))
    pure val patch = range(start, start + few)
    pure val rows = if (wide) between(seed, 1, 1, 3) else if (vast) extent else if (tall) between(seed, 1, 50, 150) else if (FOCUS == "large") between(seed, 1, 20, 40) else if (many) between(seed, 1, 1, 3)
      else if (FOCUS != "express" and chance(seed, 44, 5)) 1
      else between(seed, 1, 2, if (FOCUS == "express") 9 else if (FOCUS == "multi") 5 else 6)
    pure val cols = if (wide) extent else if (vast) between(seed, 2, 1, 2) else if (FOCUS == "single" or FOCUS == "express" or FOCUS == "large") 1 else between(seed, 2, 1, if (FOCUS == "columns") 4 else if (many) 2 else 3)
    pure val mine = pl + pick(seed, 41, 2)         // (session) which of the user's things
    pure val nPh = if (many) between(seed, 3, 5, 6) else if (FOCUS == "multi") between(seed, 3, 2, 4)
      else if (FOCUS == "session") pickFrom(mine, 3, [1, 1, 2, 3])
      else if (FOCUS == "time" or FOCUS == "forms" or FOCUS == "injection") pickFrom(seed, 3, [1, 1, 1, 2, 3])
      else if (FOCUS == "columns" or FOCUS == "windows" or FOCUS == "both" or FOCUS == "image") pickFrom(seed, 3, [1, 1, 1, 2, 3])
      else if (FOCUS == "remove" or FOCUS == "frames" or FOCUS == "express") pickFrom(seed, 3, [1, 1, 1, 1, 2]) else 1
    pure val d0 = genDir(if (FOCUS == "session") mine else seed, 1000, rows, nPh)
    pure val s0 = if (FOCUS == "session") genDir(mine, 3000, cols, pickFrom(mine, 4, [1, 1, 2]))
                  else genDir(seed, 3000, cols, pickFrom(seed, 4, [1, 1, 1, 2, 2, 3]))
    pure val far = chance(seed, 48, 4) and (d0.express > 0 or Set("time", "injection", "windows", "session").contains(FOCUS))
    pure val off = if (far) (if (not(d0.first) and chance(seed, 49, 50)) between(seed, 6, 100, 600) else between(seed, 6, 20, 90)) else if (chance(seed, 5, 50)) 0 else between(seed, 6, 1, 6)
    pure val soff = if (chance(seed, 7, 60)) 0 else between(seed, 8, 1, 4)
    pure val full = rows + off
    pure val t0 = between(seed, 9, 0, full - 1)
    // (half of the time, the first part of the readout)
    pure val tw = if (FOCUS == "time" and chance(seed, 11, 50)) { t0: 0, span: between(seed, 10, 1, full) }
                  else if (chance(seed, 12, 6)) { t0: t0, span: full + 3 }        // (there are not that many)
                  else { t0: t0, span: between(seed, 10, 1, full - t0) }
    pure val mask: List[List[bool]] = if (FOCUS != "frames" or chance(seed, 50, 25)) [] else
      tabulate2(rows, r => tabulate3(cols, c => chance(seed, 90000 + 10 * r + c, 20)))
    pure val image = unmasked(mask, genImage(seed, 100000, rows, cols))
    pure val base: Args = {
      if (FOCUS == "single")
        { par: if (chance(seed, 20, 40)) d0.with("groups", genGroups(seed, 2000, 3, 20)) else d0,
          ser: offDir(cols), tw: fullTime }
      else if (FOCUS == "express")
        { par: { ...d0, first: off < 100 and chance(seed, 20, 15), express: between(seed, 21, 1, rows - 1), offset: off }, ser: offDir(cols), tw: fullTime }
      else if (FOCUS == "multi")
        { par: { ...d0, groups: genGroups(seed, 2000, if (not(many) and chance(seed, 45, 20)) 2 else 1, 0) }, ser: offDir(cols), tw: fullTime }
      else if (wide and vast)
        { par: offDir(rows), ser: { ...s0, groups: genGroups(seed, 2000, 1, 0), first: false, express: between(seed, 22, 1, 5), offset: soff, win: patch }, tw: fullTime }
      else if (vast)
        { par: { ...d0, groups: genGroups(seed, 2000, 1, 0), first: false, express: between(seed, 22, 1, 5), offset: imin(off, 100), win: patch }, ser: offDir(cols), tw: fullTime }
      else if (FOCUS == "large")
        { par: { ...d0, groups: genGroups(seed, 2000, 1, 0), express: if (tall) 1 else between(seed, 22, 1, 3), offset: off }, ser: offDir(cols), tw: fullTime }
      else if (FOCUS == "image")
        { par: { ...d0, between: true, force: true }, ser: offDir(cols), tw: fullTime }
      else if (FOCUS == "frames")
        { par: { ...d0, win: genWindow(seed, 21, rows), offset: if (chance(seed, 23, 60)) 0 else off },
          ser: if (chance(seed, 27, 40)) { ...s0, offset: soff } else { ...offDir(cols), win: genWindow(seed, 33, cols) },
          tw: if (chance(seed, 31, 20)) { ...tw, t0: 0 } else fullTime }
      else if (FOCUS == "forms") {
        if (chance(seed, 63, 25)) { par: offDir(rows), ser: genDir(seed, 3000, cols, nPh), tw: fullTime }
        else { par: d0, ser: offDir(cols), tw: fullTime }
      }
      else if (FOCUS == "session") {
        pure val mode = if (nPh > 1 or chance(mine, 20, 70)) "imaging" else "injection"
        pure val idle = chance(seed, 34, 8)            // nothing to do
        { par: { ...d0, on: not(idle), mode: mode, first: d0.first and mode == "imaging", express: if (far) between(seed, 58, 1, 6) else between(seed, 22, 0, rows),
                 offset: if (chance(seed, 23, 60)) 0 else off, win: genWindow(seed, 24, rows) },
          ser: if (not(idle) and chance(seed, 27, 40)) { ...s0, express: between(seed, 28, 0, cols), win: genWindow(seed, 29, cols), offset: soff }
               else { ...offDir(cols), win: genWindow(seed, 33, cols) },
          tw: if (mode == "imaging" and chance(seed, 31, 20)) tw else fullTime }
      }
      else if (FOCUS == "columns")
        if (wide) { par: { ...d0, between: chance(seed, 20, 40) }, ser: { ...offDir(cols), win: patch }, tw: fullTime }
        else if (chance(seed, 29, 20)) { par: offDir(rows), ser: { ...s0, between: chance(seed, 20, 40) }, tw: fullTime }
        else { par: { ...d0, between: chance(seed, 20, 40) }, ser: offDir(cols), tw: fullTime }
      else if (FOCUS == "windows")
        { par: { ...d0, offset: off, win: genWindow(seed, 21, rows), express: if (far) between(seed, 58, 1, 6) else between(seed, 22, 0, rows + off) },
          ser: { ...offDir(cols), win: genWindow(seed, 25, cols) },
          tw: fullTime }
      else if (FOCUS == "time")
        { par: { ...d0, offset: off, win: if (chance(seed, 20, 70)) range(0, rows) else genWindow(seed, 21, rows),
                 express: if (far) between(seed, 58, 1, 6) else if (chance(seed, 12, 35)) 0 else between(seed, 22, 0, rows + off) },
          ser: { ...offDir(cols), win: if (chance(seed, 27, 20)) genWindow(seed, 28, cols) else range(0, cols) }, tw: tw }
      else if (FOCUS == "both") {
        pure val pw = if (chance(seed, 20, 60)) range(0, rows) else genWindow(seed, 21, rows)
        pure val sw = if (chance(seed, 24, 60)) range(0, cols) else genWindow(seed, 25, cols)
        pure val onlySerial = chance(seed, 29, 30)
        { par: if (onlySerial) { ...offDir(rows), win: pw, offset: if (chance(seed, 30, 30)) off else 0 }
               else if (nPh == 1 and chance(seed, 34, 20)) { ...d0, mode: "injection", first: false, win: pw, offset: off }
               else { ...d0, win: pw, offset: off },
          ser: if (chance(seed, 35, 10)) { ...s0, win: sw, offset: soff, mode: "injection", first: false, nTransfers: if (chance(seed, 36, 50)) 0 else between(seed, 37, 1, cols + soff) }
               else { ...s0, win: sw, offset: soff },
          tw: if (chance(seed, 31, 40)) tw else fullTime }
      }
      else if (FOCUS == "remove") {
        pure val both = chance(seed, 20, 40)
        pure val injected = chance(seed, 35, 15)
        pure val onlySerial = chance(seed, 29, 15)
        { par: if (onlySerial) { ...offDir(rows), win: genWindow(seed, 21, rows), offset: off }
               else { ...d0, win: genWindow(seed, 21, rows), offset: off, mode: if (injected) "injection" else "imaging", first: d0.first and not(injected) },
          ser: if (both or onlySerial) { ...s0, win: genWindow(seed, 33, cols), offset: soff } else { ...offDir(cols), win: genWindow(seed, 33, cols) },
          tw: if (chance(seed, 31, 20)) tw else fullTime }
      }
      else if (FOCUS == "injection") {
        pure val nt = if (chance(seed, 20, 40)) 0 else between(seed, 21, 1, rows + off + 4)
        pure val most = if (nt == 0) rows + off else nt
        pure val a = between(seed, 22, 0, most - 1)
        pure val part = { t0: a, span: between(seed, 23, 1, most - a) }
        { par: { ...d0, mode: "injection", first: false, nTransfers: nt, offset: off,
                 dwell: genDwell(seed, 1010, nPh), win: if (chance(seed, 24, 60)) range(0, rows) else genWindow(seed, 25, rows),
                 express: if (far) between(seed, 58, 1, 6) else between(seed, 26, 0, most + 1) },
          ser: { ...offDir(cols), win: if (chance(seed, 27, 70)) range(0, cols) else genWindow(seed, 28, cols) },
          tw: if (chance(seed, 31, 35)) part else if (nt > rows + off and chance(seed, 32, 60)) { t0: 0, span: nt } else fullTime }
      }
      else {     // "pumping": of one pixel or a few, in 1 to 3 phases, along the columns or the rows
        pure val ph = pickFrom(seed, 20, [1, 2, 3, 3])
        pure val nPumps = between(seed, 21, 1, 12)
        pure val express = between(seed, 22, 0, nPumps + 1)
        pure val e = effExpress(express, nPumps)
        pure val first = chance(seed, 23, 50)
        pure val divides = if (first) (nPumps - 1) % e == 0 else nPumps % e == 0
        pure val across = chance(seed, 34, 20)
        pure val n = if (across) cols else rows
        pure val q0 = between(seed, 26, 0, n - 1)
        pure val apart = if (chance(seed, 36, 60)) 1 else between(seed, 37, 2, 4)
        pure val pumped = { ...d0, mode: "pumping", first: first, nPumps: nPumps, express: express,
                 isInt: divides and chance(seed, 24, 50), force: false, between: true,
                 dwell: if (ph == 1 and chance(seed, 38, 30)) [S / 2, S / 2] else genDwell(seed, 1010, 2 * ph),
                 ccd: genCcd(seed, 1300, ph, chance(seed, 25, 50)),
                 groups: genGroups(seed, 2000, if (ph == 1) 2 else 1, 0),
                 win: if (chance(seed, 35, 50)) [q0] else range(0, 3).foldl([], (a, i) => if (q0 + i * apart < n) a.append(q0 + i * apart) else a),
                 offset: if (chance(seed, 27, 70)) 0 else off }
        if (across) { par: { ...offDir(rows), win: if (chance(seed, 29, 25)) genWindow(seed, 30, rows) else range(0, rows) }, ser: pumped, tw: fullTime }
        else { par: pumped, ser: { ...if (chance(seed, 28, 12)) s0 else offDir(cols), win: if (chance(seed, 29, 25)) genWindow(seed, 30, cols) else range(0, cols) }, tw: fullTime }
      }
    }
    pure val args = if (Set("single", "express", "multi", "image", "columns", "forms").contains(FOCUS) and not(wide)) elsewhere(seed, base, rows, cols, off, soff) else base
    pure val its = if (FOCUS == "remove") between(seed, 40, 1, if (chance(seed, 47, 8)) 6 else 3)
      else if ((FOCUS == "session" or FOCUS == "frames") and chance(seed, 40, 25)) between(seed, 42, 1, 2) else 0
    pure val twin = twinOf(seed, args, image, its)
    pure val mine1 = if (FOCUS == "pumping" and twin.claim == "sequel") { ...args, par: { ...args.par, win: args.par.win.slice(0, twin.at) } } else args
    { args: mine1, img: image, iterations: its, mask: mask, twin: twin }
  }

  // ---------------------------------------------------------------- machine --
  // The first clocking direction at or after `from` that there is something to do in
  pure def nextStage(a: Args, from: str): str =
    if (from == "par" and a.par.on) "par"
    else if (a.ser.on and serialRows(a).length() > 0) "ser" else "done"
  pure def jobFor(a: Args, st: str): Job = if (st == "ser") jobOf(a.ser, fullTime) else jobOf(a.par, a.tw)
  pure def columnsFor(a: Args, st: str): List[int] = if (st == "ser") serialRows(a) else a.ser.win

  // (sets every variable but those of the case, the estimates and the results)
  action enter(a: Args, st: str, image: Image): bool = {
    pure val j = jobFor(a, st)
    pure val i = if (st == "ser") transpose(image) else image
    pure val cs = columnsFor(a, st)
    pure val c = openColumn(j, i, cs[0], j.noTraps)
    all { stage' = st, job' = j, img' = i, todo' = cs, col' = c, pass' = 0, entry' = sumList(c.px) }
  }
  action stay: bool = all { stage' = stage, job' = job, case' = case, est' = est, iteration' = iteration, out' = out, twinOut' = twinOut, pool' = pool, dry' = (dry or col.dry) }

  // Another image, another user
  action fresh = {
    nondet seed = 0.to(2^40).oneOf()
    begin(genCase(seed, pool), pool)
  }
  action begin(c: Case, p: int): bool = all {
    pool' = p, dry' = false, case' = c, est' = c.img, iteration' = 1, out' = c.img, twinOut' = [],
    enter(c.args, nextStage(c.args, "par"), c.img),
  }
  action init = {
    nondet seed = 0.to(2^40).oneOf()
    begin(genCase(seed, seed), seed)
  }

  action doPass = all {
    stage != "done",
    pass < nPasses(job),
    col' = runPass(job, col, pass),
    pass' = pass + 1,
    stay, img' = img, todo' = todo, entry' = entry,
  }
  action nextColumn = all {
    stage != "done",
    pass == nPasses(job), todo.length() > 1,
    {
      val e = endColumn(job, col)
      val c = openColumn(job, img, todo[1], e.saved)
      all { img' = closeColumn(job, img, todo[0], col), todo' = todo.tail(), col' = c, pass' = 0, entry' = sumList(c.px) }
    },
    stay,
  }
  // This direction is finished: clock in the other, or improve the estimate, or stop
  action turn = all {
    stage != "done",
    pass == nPasses(job), todo.length() == 1,
    {
      val i = closeColumn(job, img, todo[0], col)
      val st = if (stage == "par") nextStage(case.args, "ser") else "done"
      val clocked = if (stage == "ser") transpose(i) else i
      val done = if (st == "done") unmasked(case.mask, clocked) else clocked
      if (st != "done") all { enter(case.args, st, done), case' = case, est' = est, iteration' = iteration, out' = out, twinOut' = twinOut, pool' = pool, dry' = (dry or col.dry) }
      else {
        val better = mapImage3(est, case.img, done, (x, y, z) => x + y - z)
        if (iteration < case.iterations)
          all { enter(case.args, nextStage(case.args, "par"), better), case' = case, est' = better, iteration' = iteration + 1, out' = out, twinOut' = twinOut, pool' = pool, dry' = (dry or col.dry) }
        else {
          val second = if (case.twin.claim == "") { img: [], dry: false }
                       else addCtiDry(case.twin.args, if (case.twin.claim == "sequel") done else case.twin.img)
         all {
          out' = if (case.iterations == 0) done else better,
          pool' = pool, dry' = (dry or col.dry or second.dry),
          twinOut' = second.img,
          stage' = "done", case' = case, job' = job, img' = done, todo' = [], col' = col, pass' = pass,
          est' = est, iteration' = iteration, entry' = entry,
         }
        }
      }
    },
  }
  action step = if (stage == "done") fresh else any { doPass, nextColumn, turn }

  // ------------------------------------------------------------- properties --
  pure def stackOk(j: Job, t: Traps): bool =
    t.indices().forall(ph => t[ph].indices().forall(g => profileOk(j.mgrs[ph][g], t[ph][g])))
  // C02: the traps of the pixel are never fuller than full, nor emptier than empty
  val occupancy = stage != "done" implies and { stackOk(job, col.cur), stackOk(job, col.saved) }
  // C21: every electron is accounted for, and no pixel is negative
  val ledger = stage != "done" implies iabs(sumList(col.px) - (entry + col.booked + col.clipped)) <= 1000
  val nonNegative = (stage != "done" and case.iterations == 0
    and case.img.indices().forall(r => case.img[r].indices().forall(c => case.img[r][c] >= 0))) implies col.px.indices().forall(i => col.px[i] >= 0)
  // C21/C12: where each transfer is computed once, what is missing from the
  // image is in the traps, and what is in the traps is missing from the image
  pure def plainPass(j: Job, k: int): bool = and {
    j.mgrs.length() == 1 or j.phases.length() >= 0,
    j.sched.mult[k].indices().forall(i => j.sched.mult[k][i] == 0 or j.sched.mult[k][i] == j.sched.den),
    j.sched.mult[k].indices().forall(i => j.sched.mon[k][i] == (j.sched.mult[k][i] > 0)),
  }
  pure def held(j: Job, t: Traps): int =
    t.indices().fold(0, (a, ph) => a + t[ph].indices().fold(0, (b, g) => b + trapped(j.mgrs[ph][g], t[ph][g])))
  val conservation = (stage != "done" and pass == 1 and plainPass(job, 0) and col.clipped == 0 and held(job, col.saved) == 0) implies
    iabs(sumList(col.px) + held(job, col.cur) - entry) <= slack(entry) * 1000
  // C16: nothing that happened in another column, unless the user says so
  val unmarked = (stage != "done" and pass == 0 and job.between) implies (held(job, col.saved) == 0 and col.booked == 0)
  // C21: nothing comes out of nothing
  val darkness = (stage == "done" and total(case.img) == 0 and case.iterations == 0) implies total(out) == 0
  // C21: where every transfer is computed, in traps that are empty at first, no electron appears from nowhere
  pure def everyTransfer(a: Args): bool = a.par.on and not(a.ser.on) and a.par.mode == "imaging" and a.par.first and a.par.between
    and a.tw.span == 0 and effExpress(a.par.express, maxOf(a.par.win) + 1 + a.par.offset) == maxOf(a.par.win) + 1 + a.par.offset
  val neverMore = (stage == "done" and case.iterations == 0 and everyTransfer(case.args)
      and case.img.indices().forall(r => case.img[r].indices().forall(c => case.img[r][c] >= 0))) implies
    total(out) <= total(case.img) + slack(total(case.img)) * 1000
  // C09, C15, C16, C21, C24: what the result of one use says about that of another
  pure val CLOSE = 1000000000000000000        // 10^-12
  pure def close(x: int, y: int): bool = iabs(x - y) <= CLOSE
  pure def sameImage(x: Image, y: Image, rows: Set[int], cols: Set[int]): bool = rows.forall(r => cols.forall(c => close(x[r][c], y[r][c])))
  val twins = (stage == "done" and case.twin.claim != "" and case.twin.claim != "asis") implies {
    val rs = out.indices()
    val cs = out[0].indices()
    if (case.twin.claim == "equal") sameImage(out, twinOut, rs, cs)
    else if (case.twin.claim == "transposed") sameImage(out, transpose(twinOut), rs, cs)
    else if (case.twin.claim == "nearer") sameImage(out, twinOut, rs.filter(r => r < case.twin.at), cs)
    else if (case.twin.claim == "others") sameImage(out, twinOut, rs, cs.filter(c => c != case.twin.at))
    else if (case.twin.claim == "scaled") sameImage(scaleImage(out, case.twin.at), twinOut, rs, cs)
    else sameImage(addCti(case.twin.whole, case.img), twinOut, rs, cs)
  }
  // C26: a masked pixel of a Frame stays masked
  val masks = case.mask.length() > 0 implies case.mask.indices().forall(r => case.mask[r].indices().forall(c =>
    case.mask[r][c] implies (case.img[r][c] == 0 and (stage == "done" implies out[r][c] == 0))))
  val inv = and { masks, occupancy, ledger, nonNegative, conservation, unmarked, darkness, neverMore, twins }
}
module cti_single { import m_cti(FOCUS = "single").* }
module cti_large { import m_cti(FOCUS = "large").* }
module cti_vast { import m_cti(FOCUS = "vast").* }
module cti_multi { import m_cti(FOCUS = "multi").* }
module cti_windows { import m_cti(FOCUS = "windows").* }
module cti_time { import m_cti(FOCUS = "time").* }
module cti_both { import m_cti(FOCUS = "both").* }
module cti_columns { import m_cti(FOCUS = "columns").* }
module cti_express { import m_cti(FOCUS = "express").* }
module cti_remove { import m_cti(FOCUS = "remove").* }
module cti_injection { import m_cti(FOCUS = "injection").* }
module cti_pumping { import m_cti(FOCUS = "pumping").* }
module cti_forms { import m_cti(FOCUS = "forms").* }
module cti_session { import m_cti(FOCUS = "session").* }
module cti_image { import m_cti(FOCUS = "image").* }
module cti_frames { import m_cti(FOCUS = "frames").* }
