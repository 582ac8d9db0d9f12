// -*- mode: Bluespec; -*-
// Trace validation of populations of traps: `follow` is applied to every
// population that the code drew (see harness/validate.py).
module draws {
  import fixed.* from "./fixed"
  import model.* from "./model"
  import gen.* from "./gen"

  type Survey = { kind: str, species: List[Trap], rows: int, cols: int, seed: int }
  // --------------------------------------------------------- what was drawn --
  // drawn: the densities, column by column; variants: for every species, what
  // else its copies are (each once); repeats: drawing again with that seed gave the same
  type Record = { survey: Survey, drawn: List[int], variants: List[List[Trap]], repeats: bool, after: List[Trap] }
  type St = int
  pure val begin: St = 0
  pure def near(x: int): int = (2 * x + S) / (2 * S)
  pure def sameButDens(a: Trap, b: Trap): bool = a.rel == b.rel and a.cap == b.cap and a.sig == b.sig
  pure def follow(s: St, r: Record): { st: St, why: str } = {
    pure val sp = r.survey.species
    pure val n = sp.length()
    pure val cols = r.survey.cols
    pure val count = tabulate2(r.drawn.length(), j => r.drawn[j] * r.survey.rows)
    { st: s + 1, why:
      if (r.after != sp) "the species given were changed"
      else if (r.drawn.length() != cols * n) "not one species per column and per species given"
      else if (not(sp.indices().forall(i => r.variants[i].length() == 1 and sameButDens(r.variants[i][0], sp[i])))) "more than the density of a species was changed"
      else if (not(count.indices().forall(j => count[j] >= 0 and iabs(count[j] - near(count[j]) * S) <= S / 1000000)))
        "not a whole number of traps in a column"
      else if (not(r.repeats)) "the same seed draws other numbers"
      else if (sp.indices().exists(i => {
          // the sum over the columns is Poisson: within 8 standard deviations, and (where it is certain to) it varies
          val mean = fmul(sp[i].dens * r.survey.rows, cols * S)
          val sum = range(0, cols).foldl(0, (a, c) => a + count[c * n + i])
          iabs(sum - mean) > 8 * fsqrt(mean) + S / 1000
            or (sp[i].dens * r.survey.rows > S and 0.to(cols - 1).forall(c => near(count[c * n + i]) == near(count[i])))
        })) "numbers that are not those of a Poisson distribution"
      else if (sp.indices().exists(i => {
          val lam = sp[i].dens * r.survey.rows
          val avg = range(0, cols).foldl(0, (a, c) => a + count[c * n + i]) / cols
          val v = range(0, cols).foldl(0, (a, c) => a + fmul(count[c * n + i] - avg, count[c * n + i] - avg)) / (cols - 1)
          lam > 5 * S and (v > 4 * lam or 5 * v < lam)
        })) "a variance that is not that of a Poisson distribution"
      else "" }
  }
}
