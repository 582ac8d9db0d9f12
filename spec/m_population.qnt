// -*- mode: Bluespec; -*-
// State machine: the trap species of a whole detector, whose numbers vary at
// random from column to column; and how much a species distorts the shapes of
// galaxies.  Which numbers are drawn is up to the code: draws.qnt says what is
// acceptable.
module m_population {
  import fixed.* from "./fixed"
  import model.* from "./model"
  import gen.* from "./gen"
  import draws.* from "./draws"

  var survey: Survey
  var ellipticity: List[int]     // change of ellipticity by each species

  // Israel et al. (2014)
  pure val tenThousandth = S / 10000
  pure val hundredThousandth = S / 100000
  pure def deltaEllipticity(t: Trap): int = {
    pure val x = fln(t.rel)
    pure val gw = 4132 * tenThousandth
    pure val u = x - 4553 * tenThousandth
    fmul(t.dens, 5333 * hundredThousandth
      + fmul(3357 * hundredThousandth, fatan(fdiv(x - milli(1628), 2951 * tenThousandth)))
      + fmul(9901 * hundredThousandth, fexpn(fdiv(fmul(u, u), 2 * fmul(gw, gw)))))
  }

  pure def genSurvey(seed: int): Survey = {
    pure val kind = pickFrom(seed, 1, ["slow", "instant", "cont"])
    pure val n = between(seed, 2, 1, 3)
    pure val base = genMgr(seed, 10, kind, 3)
    {
      kind: kind,
      species: tabulate3(base.traps.length(), i => { ...base.traps[i],
        dens: if (chance(seed, 100 + i, 10)) 0 else logu(seed, 110 + i, -2, 1),
        rel: logu(seed, 120 + i, -3, 3) }),
      rows: pickFrom(seed, 3, [10, 100, 500, 2048]), cols: between(seed, 4, 30, 40), seed: if (chance(seed, 6, 15)) 0 else between(seed, 5, 0, 100000),
    }
  }
  action step = {
    nondet seed = 0.to(2^40).oneOf()
    pure val s = genSurvey(seed)
    all { survey' = s, ellipticity' = tabulate(s.species.length(), i => deltaEllipticity(s.species[i])) }
  }
  action init = step
  // C25: more traps, more distortion
  val inv = survey.species.indices().forall(i => and {
    ellipticity[i] >= 0,
    iabs(deltaEllipticity({ ...survey.species[i], dens: 2 * survey.species[i].dens }) - 2 * ellipticity[i]) <= 100,
  })
}
