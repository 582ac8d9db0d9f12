// -*- mode: Bluespec; -*-
// Readout electronics: the express schedule (which transfers are computed, in
// which pass, and how many real transfers each stands for), when trap states
// are saved for the next pass, and the clock sequence (which phase is high,
// which charge packet each phase of a pixel interacts with).
// Everything here is integer arithmetic: multipliers are numerators over `den`.
module roe {
  import fixed.* from "./fixed"

  type Sched = {
    den: int,
    mult: List[List[int]],      // [pass][row of the window]
    mon: List[List[bool]],      // are the traps followed there?
    save: List[int],            // per pass: the row after which the traps are saved, or -1
  }

  // ------------------------------------------------------ express matrix ----
  // Row k of the plain schedule for nTot pixels in e passes: pixel p (1 is the
  // nearest to the readout) makes p transfers, the k-th pass stands for those
  // between k and k+1 times nTot/e of them.
  pure def plainDen(isInt: bool, e: int): int = if (isInt) 1 else e
  pure def plain(isInt: bool, nTot: int, e: int): List[List[int]] = {
    pure val m = if (isInt) ceilDiv(nTot, e) else nTot
    range(0, e).foldl([], (rows, k) => rows.append(
      range(1, nTot + 1).foldl([], (row, p) => row.append(clip(p * plainDen(isInt, e) - k * m, 0, m)))))
  }
  pure def nActive(row: List[int]): int = row.foldl(0, (a, x) => if (x > 0) a + 1 else a)

  // The passes when every charge packet's very first transfer (into empty
  // traps) is computed on its own: pass r starts at pixel nTot-1-r, whose
  // transfer there counts once, and goes on with the plain pass that starts at
  // the following pixel, if there is one.
  pure def withFirst(isInt: bool, nTot: int, e: int): List[List[int]] = {
    pure val small = plain(isInt, nTot - 1, e)
    range(0, nTot).foldl([], (rows, r) => rows.append(
      range(0, nTot).foldl([], (row, c) => row.append(
        (if (c == nTot - 1 - r) plainDen(isInt, e) else 0)
        + (if (c == 0) 0 else small.foldl(0, (a, s) => if (nActive(s) == r) a + s[c - 1] else a))))))
  }

  pure def effExpress(express: int, total: int): int = if (express == 0) total else imin(express, total)

  // n: pixels up to the end of the window; the schedule over offset + n columns
  pure def fullMatrix(isInt: bool, first: bool, n: int, express: int, offset: int): { den: int, m: List[List[int]] } = {
    pure val e = effExpress(express, n + offset)
    if (first and e < n) { den: plainDen(isInt, e), m: withFirst(isInt, n + offset, e) }
    else { den: plainDen(isInt, e), m: plain(isInt, n + offset, e) }
  }

  // Only the transfers number t0 .. t0+span-1 of each pixel (in the order of the passes)
  pure def timeCut(den: int, m: List[List[int]], t0: int, span: int): List[List[int]] = {
    pure val zero = m[0].foldl([], (a, _) => a.append(0))
    m.foldl({ cum: zero, prev: zero, out: [] }, (acc, row) => {
      pure val cum = row.indices().fold([], (a, i) => a)      // (typing helper)
      pure val cums = range(0, row.length()).foldl(cum, (a, i) => a.append(acc.cum[i] + row[i]))
      pure val cut = range(0, row.length()).foldl([], (a, i) => a.append(clip(cums[i] - t0 * den, 0, span * den)))
      { cum: cums, prev: cut,
        out: acc.out.append(range(0, row.length()).foldl([], (a, i) => a.append(cut[i] - acc.prev[i]))) }
    }).out
  }
  pure def columnsOf(m: List[List[int]], from: int, cols: List[int]): List[List[int]] =
    m.foldl([], (a, row) => a.append(cols.foldl([], (b, c) => b.append(row[from + c]))))
  pure def positive(m: List[List[int]]): List[List[bool]] =
    m.foldl([], (a, row) => a.append(row.foldl([], (b, x) => b.append(x > 0))))
  pure def firstTrue(row: List[bool]): int =
    row.indices().fold(-1, (a, i) => if (row[i] and (a == -1 or i < a)) i else a)

  // Save just before the row at which the next pass begins
  pure def savesOf(mon: List[List[bool]]): List[int] =
    range(0, mon.length()).foldl([], (a, k) => a.append(
      if (k == mon.length() - 1) -1 else imax(-1, firstTrue(mon[k + 1]) - 1)))

  pure def maxOf(l: List[int]): int = l.foldl(l[0], (a, x) => imax(a, x))

  // span = 0: no time window
  pure def imaging(isInt: bool, first: bool, win: List[int], express: int, offset: int, t0: int, span: int): Sched = {
    pure val full = fullMatrix(isInt, first, maxOf(win) + 1, express, offset)
    pure val mon = positive(columnsOf(full.m, offset, win))
    pure val cut = if (span == 0) full.m else timeCut(full.den, full.m, t0, span)
    { den: full.den, mult: columnsOf(cut, offset, win), mon: mon,
      save: if (first) mon.foldl([], (a, _) => a.append(-1)) else savesOf(mon) }
  }

  // Charge injection: every pixel is clocked through the same number of others
  pure def injection(isInt: bool, nTransfers: int, win: List[int], express: int, offset: int, t0: int, span: int): Sched = {
    pure val total = if (nTransfers == 0) maxOf(win) + 1 + offset else nTransfers
    pure val e = effExpress(express, total)
    pure val den = plainDen(isInt, e)
    pure val m = ceilDiv(total, e)
    pure val mat = range(0, e).foldl([], (rows, k) => rows.append(win.foldl([], (row, _) => row.append(
      if (isInt) clip(total - (e - 1 - k) * m, 0, m) else total))))
    { den: den, mult: if (span == 0) mat else timeCut(den, mat, t0, span), mon: positive(mat),
      save: mat.foldl([], (a, _) => a.append(-1)) }
  }

  // Trap pumping of `pixels` pixels, one after the other: every pass is of one of them.
  // (Integer multipliers: only where they divide.)
  pure def pumping(first: bool, nPumps: int, express: int, pixels: int): Sched = {
    pure val e = effExpress(express, nPumps)
    pure val one = if (first and nPumps > 1 and e < nPumps)
        range(0, e).foldl([e], (a, _) => a.append(nPumps - 1))
      else range(0, e).foldl([], (a, _) => a.append(nPumps))
    pure val passes = one.length()
    pure val mult = range(0, pixels * passes).foldl([], (a, k) => a.append(
      range(0, pixels).foldl([], (b, i) => b.append(if (k / passes == i) one[k % passes] else 0))))
    { den: e, mult: mult, mon: positive(mult),
      save: range(0, mult.length()).foldl([], (a, k) => a.append(if (k % passes == passes - 1) -1 else k / passes)) }
  }

  pure def colSum(m: List[List[int]], c: int): int = m.foldl(0, (a, row) => a + row[c])

  // ------------------------------------------------------ clock sequence ----
  type PhaseState = { high: bool, cap: int, rel: List[int] }

  pure def floorDiv(a: int, b: int): int = if (a >= 0) a / b else -((-a + b - 1) / b)

  // The triangular step counter: 0, 1 .. n, n-1 .. 0 (up to n only for plain readout)
  pure def stepPrime(n: int, step: int): int = iabs(((step + n) % (2 * n)) - n)

  pure def clockPhase(n: int, force: bool, step: int, phase: int): PhaseState = {
    pure val sp = stepPrime(n, step)
    pure val hi = sp % n
    pure val c0 = floorDiv(sp - phase + (n - 1) / 2, n)
    pure val c = if (force and phase > hi) c0 + 1 else c0
    // half-way between two high phases the released charge goes both ways
    pure val split = n % 2 == 0 and phase == (hi + n / 2) % n
    { high: phase == hi, cap: c, rel: if (split) [c, c + 1] else [c] }
  }
  pure def clockSeq(nSteps: int, n: int, force: bool): List[List[PhaseState]] =
    range(0, nSteps).foldl([], (a, s) => a.append(
      range(0, n).foldl([], (b, ph) => b.append(clockPhase(n, force, s, ph)))))
  pure def accessed(seq: List[List[PhaseState]]): Set[int] =
    seq.foldl(Set(0), (a, st) => st.foldl(a, (b, ph) => b.union(Set(ph.cap)).union(ph.rel.foldl(Set(), (c, x) => c.union(Set(x))))))
  pure def setMin(s: Set[int]): int = s.fold(0, (a, x) => imin(a, x))
  pure def setMax(s: Set[int]): int = s.fold(0, (a, x) => imax(a, x))
}
