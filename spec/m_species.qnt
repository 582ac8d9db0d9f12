// -*- mode: Bluespec; -*-
// State machines: the kinetics of trap species (what fraction is full, after
// how long), and how a cloud of electrons fills the phases of a CCD whose
// parameters its user changes.
module m_species {
  import fixed.* from "./fixed"
  import model.* from "./model"
  import gen.* from "./gen"

  // "kinetics", "continuum"
  const FOCUS: str

  // alpha > 0: a continuum whose release rates follow a Gamma distribution of
  // shape alpha and mean alpha/rel, whose survival is (1 + t/rel)^-alpha
  type Ask = { traps: List[Trap], kind: str, alpha: int, t: int, dt: int, n: int, dt2: int, fill: int }
  type Answer = { surv: List[int], gone: List[int], goneFrom: List[int], e: List[int], f: List[int], r: List[int],
                  e2: List[int], f2: List[int], elapsed: int }
  var ask: Ask
  var answer: Answer

  pure def powInt(x: int, k: int): int = range(0, k).foldl(S, (a, _) => fmul(a, x))
  pure def surv(a: Ask, i: int, t: int): int =
    if (a.alpha > 0) fdiv(S, powInt(S + fdiv(t, a.traps[i].rel), a.alpha)) else survival(a.traps[i], t)
  pure def answerTo(a: Ask): Answer = {
    pure val ps = tabulate2(a.traps.length(), i => probs({ ...a.traps[i], sig: 0 }, a.dt))
    pure val ps2 = tabulate3(a.traps.length(), i => probs({ ...a.traps[i], sig: 0 }, a.dt2))
    {
      surv: tabulate(a.traps.length(), i => surv(a, i, a.t)),
      gone: tabulate(a.traps.length(), i => fmul(a.n, S - surv(a, i, a.dt))),
      goneFrom: tabulate(a.traps.length(), i => surv(a, i, a.t) - surv(a, i, a.t + a.dt)),
      e: tabulate(a.traps.length(), i => ps[i].e), f: tabulate(a.traps.length(), i => ps[i].f), r: tabulate(a.traps.length(), i => ps[i].r),
      e2: tabulate(a.traps.length(), i => ps2[i].e), f2: tabulate(a.traps.length(), i => ps2[i].f),
      elapsed: if (a.alpha > 0) 0 else timeFromFill(a.traps[0], a.fill),
    }
  }

  pure def genAsk(seed: int): Ask = {
    pure val kind = if (FOCUS == "continuum") "cont" else pickFrom(seed, 1, ["slow", "slow", "instant"])
    pure val m = genMgr(seed, 10, kind, if (FOCUS == "continuum") 1 else 3)
    pure val alpha = if (FOCUS == "continuum" and chance(seed, 2, 30)) between(seed, 3, 1, 3) else 0
    // the units of time are the user's: seconds, microseconds, transfers
    pure val unit = if (chance(seed, 9, 40)) 10^(between(seed, 8, 0, 12)) else 10^6
    // now and then the few same species and times are asked for again and again,
    // in other combinations: no answer may depend on the questions before it
    pure val again = chance(seed, 30, 25)
    pure def oneOfFew(k: int): int = pickFrom(seed, k, [milli(500), S, 2 * S, 4 * S])
    pure val traps = tabulate3(m.traps.length(), i => {
      ...m.traps[i],
      rel: if (again) oneOfFew(40 + i) else imax(1000000, m.traps[i].rel / 10^6 * unit),
      cap: if (m.traps[i].cap == 0) 0 else if (again) oneOfFew(44 + i) else m.traps[i].cap / 10^6 * unit,
      sig: if (FOCUS == "continuum" and alpha == 0) pickFrom(seed, 4, [milli(20), milli(50), milli(200), milli(500), S, milli(1500), milli(2000)]) else 0,
    })
    pure val rel = traps[0].rel
    {
      traps: traps, kind: kind, alpha: alpha,
      t: if (chance(seed, 5, 10)) 0 else if (again) oneOfFew(50) else fmul(rel, logu(seed, 20, -3, 1)),
      dt: if (again) oneOfFew(51) else fmul(rel, logu(seed, 21, -3, 1)),
      dt2: if (again) oneOfFew(52) else fmul(rel, logu(seed, 22, -3, 0)),
      n: logu(seed, 23, -1, 4),
      fill: if (chance(seed, 6, 8)) S else if (again) pickFrom(seed, 53, [milli(250), milli(500), milli(750)]) else if (chance(seed, 7, 20)) logu(seed, 24, -4, -1) else milli(between(seed, 25, 1, 999)),
    }
  }
  action step = {
    nondet seed = 0.to(2^40).oneOf()
    pure val a = genAsk(seed)
    all { ask' = a, answer' = answerTo(a) }
  }
  action init = step

  // ------------------------------------------------------------- properties --
  pure val EPS = 1000000000000000      // 10^-15
  pure def isFraction(x: int): bool = -EPS <= x and x <= S + EPS
  // C06: fractions are fractions; traps empty monotonically; nothing is released twice
  val fractions = ask.traps.indices().forall(i => and {
    isFraction(answer.surv[i]), isFraction(answer.goneFrom[i]),
    isFraction(answer.e[i]), isFraction(answer.f[i]), isFraction(answer.r[i]),
    answer.goneFrom[i] <= answer.surv[i] + EPS,
    0 <= answer.gone[i] and answer.gone[i] <= ask.n + EPS,
    // a full trap under the cloud stays full at least as often as one above it,
    // and at least as often as an empty one becomes full
    answer.f[i] >= answer.r[i] - EPS, answer.f[i] >= answer.e[i] - EPS,
  })
  // ... two dwell times in a row are one long one (Chapman-Kolmogorov)
  val composes = ask.kind == "slow" implies ask.traps.indices().forall(i => ask.traps[i].cap > 0 implies {
    val whole = probs(ask.traps[i], ask.dt + ask.dt2)
    iabs(whole.f - (fmul(answer.f[i], answer.f2[i]) + fmul(S - answer.f[i], answer.e2[i]))) <= EPS
      and iabs(whole.e - (fmul(answer.e[i], answer.f2[i]) + fmul(S - answer.e[i], answer.e2[i]))) <= EPS
  })
  // ... and the elapsed time is the inverse of the fraction still full
  val inverse = ask.alpha == 0 implies (
    if (ask.fill <= 0) answer.elapsed == NEVER
    else iabs(survival(ask.traps[0], answer.elapsed) - ask.fill) <= 10000 * EPS)    // (the quadrature stops at 7 sigma)
  val inv = and { fractions, composes, inverse }
}
module species_kinetics { import m_species(FOCUS = "kinetics").* }
module species_continuum { import m_species(FOCUS = "continuum").* }
