// -*- mode: Bluespec; -*-
// Charge clouds, trap species and trap managers.
//
// The abstract state of a trap manager is the occupancy profile of one pixel
// (phase): a stack of levels, bottom first, each with a fractional volume and,
// for every species, the fraction of its traps in that slab which are full (for
// a continuum of lifetimes: the time since the slab was filled, NEVER if it has
// never been).  The implementation's watermark array is one representation of
// this profile among many; conformance compares profiles, not arrays.
module model {
  import fixed.* from "./fixed"

  // ---------------------------------------------------------------- CCD ----
  // Parameters of one phase, and of a CCD (one entry per phase)
  type Well = { fwd: int, notch: int, pow: int }
  type Ccd = { frac: List[int], well: List[Well] }

  // Fraction of a phase's volume (hence of its traps) reached by n electrons
  pure def cloudVolume(w: Well, n: int): int =
    if (n == 0) 0 else fpow(clip(fdiv(n - w.notch, w.fwd - w.notch), 0, S), w.pow)

  // ------------------------------------------------------- trap species ----
  // cap = 0: instant capture.  sig > 0: log-normal continuum of release
  // lifetimes of median rel.
  type Trap = { dens: int, rel: int, cap: int, sig: int }
  pure val NEVER = -1

  // Log-normal lifetimes: trapezoidal rule over the standard normal variable u,
  // with nodes at -7, -7+h .. 7 (h small enough for the width of the distribution)
  pure def gaussWeights(h: int, half: int): List[int] = range(-half, half + 1).foldl([], (acc, i) =>
    acc.append(fdiv(fmul(h, fexpn(fmul(i * h, i * h) / 2)), fsqrt(2 * PI))))
  pure val weightsNarrow = gaussWeights(S / 2, 14)
  pure val weightsWide = gaussWeights(S / 4, 28)

  // Fraction of traps still full a time t after they were filled
  pure def survival(tr: Trap, t: int): int =
    if (t == NEVER) 0
    else if (tr.sig == 0) fexpn(fdiv(t, tr.rel))
    else {
      pure val narrow = tr.sig <= S / 2
      pure val ws = if (narrow) weightsNarrow else weightsWide
      pure val q = fexpn(fmul(tr.sig, if (narrow) S / 2 else S / 4))     // ratio of successive rates
      pure val x0 = fmul(fdiv(t, tr.rel), fexp(7 * tr.sig))
      ws.foldl((0, x0), (acc, w) =>
        (acc._1 + (if (acc._2 > 50 * S) 0 else fmul(w, fexpn(acc._2))), fmul(acc._2, q)))._1
    }

  // The time after which a fraction f is still full (continuum: by bisection)
  pure def timeFromFill(tr: Trap, f: int): int =
    if (f <= 0) NEVER
    else if (f >= S) 0
    else if (tr.sig == 0) fmul(tr.rel, -fln(f))
    else {
      // upper bracket by doubling, then bisection
      pure val hi = range(0, 60).foldl(tr.rel, (h, _) => if (survival(tr, h) > f) 2 * h else h)
      pure val b = range(0, 60).foldl((0, hi), (acc, _) => {
        pure val m = (acc._1 + acc._2) / 2
        if (survival(tr, m) > f) (m, acc._2) else (acc._1, m)
      })
      (b._1 + b._2) / 2
    }

  // Probabilities of being full after a dwell time: an empty trap under the
  // cloud, a full trap under the cloud, and a full trap above the cloud
  // (Lindegren 1998, section 3.2)
  type Probs = { e: int, f: int, r: int }
  pure def probs(tr: Trap, dt: int): Probs = {
    pure val r = fexpn(fdiv(dt, tr.rel))
    if (tr.cap == 0) { e: S, f: S, r: r }
    else {
      pure val re = fdiv(S, tr.rel)
      pure val rc = fdiv(S, tr.cap)
      pure val k = fdiv(S - fexpn(fmul(re + rc, dt)), re + rc)
      { e: fmul(rc, k), f: S - fmul(re, k), r: r }
    }
  }

  // ---------------------------------------------------------- profiles -----
  type Level = { v: int, f: List[int] }
  type Profile = List[Level]
  // kind: "slow" release and capture during the same dwell; "instant" release
  // then capture; "time" the same with elapsed times as the state; "cont" a
  // continuum of lifetimes (state: elapsed times)
  type Mgr = { kind: str, traps: List[Trap] }

  pure def emptyFill(m: Mgr): List[int] = m.traps.foldl([], (acc, _) => acc.append(if (m.kind == "cont") NEVER else 0))
  pure def fullFill(m: Mgr): List[int] = m.traps.foldl([], (acc, _) => acc.append(if (m.kind == "cont") 0 else S))

  pure def top(p: Profile): int = p.foldl(0, (acc, l) => acc + l.v)

  // The same profile with a boundary at height c, extended up to c if c is above it
  pure def splitAt(p: Profile, c: int, empty: List[int]): Profile = {
    pure val s = p.foldl((0, []), (acc, l) =>
      if (acc._1 < c and c < acc._1 + l.v)
        (acc._1 + l.v, acc._2.append({ v: c - acc._1, f: l.f }).append({ v: acc._1 + l.v - c, f: l.f }))
      else (acc._1 + l.v, acc._2.append(l)))
    if (s._1 < c) s._2.append({ v: c - s._1, f: empty }) else s._2
  }
  // Apply g to the fills of every level below (or above) height c
  pure def mapBelow(p: Profile, c: int, g: (List[int]) => List[int]): Profile =
    p.foldl((0, []), (acc, l) =>
      (acc._1 + l.v, acc._2.append(if (acc._1 + l.v <= c) { v: l.v, f: g(l.f) } else l)))._2
  pure def mapAbove(p: Profile, c: int, g: (List[int]) => List[int]): Profile =
    p.foldl((0, []), (acc, l) =>
      (acc._1 + l.v, acc._2.append(if (acc._1 >= c) { v: l.v, f: g(l.f) } else l)))._2

  pure def fillOf(m: Mgr, i: int, x: int): int = if (m.kind == "cont") survival(m.traps[i], x) else x

  // Electrons held by the traps of a profile
  pure def trapped(m: Mgr, p: Profile): int =
    p.foldl(0, (acc, l) => acc + m.traps.indices().fold(0, (a, i) =>
      a + fmul(fmul(l.v, fillOf(m, i, l.f[i])), m.traps[i].dens)))

  // Remove empty slabs and join neighbours in the same state
  pure def tidy(p: Profile): Profile =
    p.foldl([], (acc, l) =>
      if (l.v <= 0) acc
      else if (acc.length() > 0 and acc[acc.length() - 1].f == l.f)
        acc.replaceAt(acc.length() - 1, { v: acc[acc.length() - 1].v + l.v, f: l.f })
      else acc.append(l))

  // Move a fraction e of the way from profile a to profile b (same slabs)
  pure def blend(m: Mgr, a: Profile, b: Profile, e: int): Profile =
    range(0, a.length()).foldl([], (acc, j) => acc.append(
      { v: a[j].v, f: range(0, m.traps.length()).foldl([], (fs, i) => fs.append(
          if (a[j].f[i] == b[j].f[i]) a[j].f[i]
          else {
            pure val x = fmul(e, fillOf(m, i, b[j].f[i])) + fmul(S - e, fillOf(m, i, a[j].f[i]))
            if (m.kind == "cont") timeFromFill(m.traps[i], x) else x
          })) }))

  type Outcome = { net: int, p: Profile }   // net: electrons handed back (+) or taken (-)

  pure def probsOf(m: Mgr, dt: int): List[Probs] = m.traps.foldl([], (acc, tr) => acc.append(probs(tr, dt)))

  // ---- release and capture during the same dwell time ---------------------
  pure def interactSlow(m: Mgr, w: Well, p: Profile, n: int, pr: List[Probs]): Outcome = {
    pure val em = emptyFill(m)
    pure val i0 = trapped(m, p)
    // traps above the initial cloud can only release
    pure val c1 = cloudVolume(w, n)
    pure val pa = if (c1 < top(p)) splitAt(p, c1, em) else p
    pure val pb = mapAbove(pa, c1, f => range(0, f.length()).foldl([], (acc, i) => acc.append(fmul(f[i], pr[i].r))))
    pure val n1 = n + (i0 - trapped(m, pb))
    // the released electrons join the cloud, which then fills/keeps the traps it reaches
    pure val c2 = cloudVolume(w, n1)
    pure val before = splitAt(pa, c2, em)
    pure val after = mapBelow(splitAt(pb, c2, em), c2, f => range(0, f.length()).foldl([], (acc, i) =>
      acc.append(fmul(f[i], pr[i].f) + fmul(S - f[i], pr[i].e))))
    pure val gain = trapped(m, after) - i0
    // no more electrons can be taken than there were
    if (gain > 0 and n < gain) {
      pure val e = fdiv(imax(n, 0), gain)
      pure val lim = blend(m, before, after, e)
      { net: i0 - trapped(m, lim), p: tidy(lim) }
    } else { net: -gain, p: tidy(after) }
  }

  // ---- release, then instant capture --------------------------------------
  pure def interactInstant(m: Mgr, w: Well, p: Profile, n: int, dt: int, pr: List[Probs]): Outcome = {
    pure val em = emptyFill(m)
    pure val i0 = trapped(m, p)
    pure val rel = mapBelow(p, top(p), f => range(0, f.length()).foldl([], (acc, i) => acc.append(
      if (m.kind == "cont") (if (f[i] == NEVER) NEVER else f[i] + dt)
      else fmul(f[i], pr[i].r))))
    pure val i1 = trapped(m, rel)
    pure val n1 = n + (i0 - i1)
    pure val c = cloudVolume(w, n1)
    pure val before = splitAt(rel, c, em)
    pure val after = mapBelow(before, c, f => fullFill(m))
    pure val gain = trapped(m, after) - i1
    if (gain > 0 and n1 < gain) {
      pure val lim = blend(m, before, after, fdiv(imax(n1, 0), gain))
      { net: i0 - trapped(m, lim), p: tidy(lim) }
    } else { net: i0 - i1 - gain, p: tidy(after) }
  }

  pure def interactWith(m: Mgr, w: Well, p: Profile, n: int, dt: int, pr: List[Probs]): Outcome =
    if (m.kind == "slow") interactSlow(m, w, p, n, pr) else interactInstant(m, w, p, n, dt, pr)
  pure def interact(m: Mgr, w: Well, p: Profile, n: int, dt: int): Outcome =
    interactWith(m, w, p, n, dt, probsOf(m, dt))

  // ---------------------------------------------------------- invariants ---
  pure val TINY = 1000000            // 10^-24: slack for the rounding of fixed point arithmetic
  pure def slack(a: int): int = TINY + iabs(a) / 1000000000000000
  // the elapsed times of a continuum are found by bisection: 10^-12
  pure def slackFor(m: Mgr, a: int): int = slack(a) + (if (m.kind == "cont") 1000000000000000000 else 0)
  pure def capacity(m: Mgr): int = m.traps.foldl(0, (a, tr) => a + tr.dens)
  pure def fractionOk(m: Mgr, x: int): bool = -slackFor(m, 0) <= x and x <= S + slackFor(m, 0)
  // Every slab has positive volume, the stack fits the pixel, every fill is a fraction
  pure def profileOk(m: Mgr, p: Profile): bool = and {
    p.indices().forall(j => p[j].v > 0),
    top(p) <= S,
    p.indices().forall(j => m.traps.indices().forall(i => fractionOk(m, fillOf(m, i, p[j].f[i])))),
    trapped(m, p) <= capacity(m) + slackFor(m, capacity(m)),
  }
  // What one transfer may do: charge is exchanged, not made, and the cloud is never overdrawn
  pure def exchangeOk(m: Mgr, p: Profile, n: int, o: Outcome): bool = and {
    iabs((trapped(m, p) - trapped(m, o.p)) - o.net) <= slackFor(m, capacity(m) + iabs(n)),
    n >= 0 implies n + o.net >= -slackFor(m, n + capacity(m)),
    // at most everything that is trapped comes back
    o.net <= trapped(m, p) + slackFor(m, trapped(m, p)),
  }
}
