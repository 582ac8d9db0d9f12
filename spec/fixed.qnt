// -*- mode: Bluespec; -*-
// Exact-enough real arithmetic for the specification: every real quantity is an
// (unbounded) integer in units of 1/S.  Transcendental functions are computed
// here, inside the specification, so that it is an oracle independent of the
// floating point library the implementation uses.
module fixed {
  pure val S = 1000000000000000000000000000000   // 10^30

  pure def fmul(a: int, b: int): int = (a * b) / S
  pure def fdiv(a: int, b: int): int = (a * S) / b
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a < b) b else a
  pure def iabs(a: int): int = if (a < 0) -a else a
  pure def clip(a: int, lo: int, hi: int): int = if (a < lo) lo else if (hi < a) hi else a
  pure def ceilDiv(a: int, b: int): int = (a + b - 1) / b
  pure def sumList(l: List[int]): int = l.foldl(0, (acc, x) => acc + x)

  // exp(-a) for a >= 0
  pure def fexpn(a: int): int =
    if (a > 80 * S) 0 else {
      pure val r = a / 4096
      pure val s = range(1, 15).foldl((S, S), (acc, k) => {
        pure val t = -(fmul(acc._2, r)) / k
        (acc._1 + t, t)
      })._1
      range(0, 12).foldl(s, (acc, _) => fmul(acc, acc))
    }

  // 2*atanh((m-S)/(m+S)) = ln m, for m in about [0.7, 1.4]
  pure def lnNear1(m: int): int = {
    pure val z = fdiv(m - S, m + S)
    pure val z2 = fmul(z, z)
    2 * range(0, 22).foldl((0, z), (acc, k) => (acc._1 + acc._2 / (2 * k + 1), fmul(acc._2, z2)))._1
  }
  pure val LN2 = 2 * lnNear1((S * 1414213562373095048801688724210) / 1000000000000000000000000000000)
  // natural logarithm, x > 0
  pure def fln(x: int): int = {
    pure val up = [64, 32, 16, 8, 4, 2, 1].foldl((x, 0), (acc, p) =>
      if (10 * acc._1 * 2^p < 14 * S) (acc._1 * 2^p, acc._2 - p) else acc)
    pure val dn = [64, 32, 16, 8, 4, 2, 1].foldl(up, (acc, p) =>
      if (10 * acc._1 >= 7 * S * 2^p) (acc._1 / 2^p, acc._2 + p) else acc)
    dn._2 * LN2 + lnNear1(dn._1)
  }
  // e^a for any sign of a
  pure def fexp(a: int): int = if (a <= 0) fexpn(-a) else (S * S) / fexpn(a)
  // x^b for x >= 0, b > 0
  pure def fpow(x: int, b: int): int =
    if (x <= 0) 0 else if (x == S) S else if (b == S) x else fexp(fmul(b, fln(x)))

  // integer square root by Newton iteration, then the fixed point root
  pure def isqrt(n: int): int =
    if (n == 0) 0 else {
      pure val start = range(0, 300).foldl(1, (acc, _) => if (acc * acc < n) acc * 2 else acc)
      range(0, 12).foldl(start, (acc, _) => imin(acc, (acc + n / acc) / 2))
    }
  pure def fsqrt(x: int): int = isqrt(x * S)
  pure def atanSmall(y: int): int = {
    pure val y2 = fmul(y, y)
    range(0, 26).foldl((0, y), (acc, k) => (acc._1 + acc._2 / (2 * k + 1), -fmul(acc._2, y2)))._1
  }
  pure val PI = 4 * (4 * atanSmall(S / 5) - atanSmall(S / 239))
  pure def halfAngle(y: int): int = fdiv(y, S + fsqrt(S + fmul(y, y)))
  pure def fatan(y: int): int =
    if (y < 0 and -y > S) -(PI / 2 - 4 * atanSmall(halfAngle(halfAngle(fdiv(S, -y)))))
    else if (y > S) PI / 2 - 4 * atanSmall(halfAngle(halfAngle(fdiv(S, y))))
    else 4 * atanSmall(halfAngle(halfAngle(y)))

  // decimal helpers: a number given in 10^-k
  pure def milli(a: int): int = a * (S / 1000)
  pure def micro(a: int): int = a * (S / 1000000)

  // Deterministic pseudo-random stream used by the generators: r(seed, k) is
  // uniform over 0..2^61-2 for practical purposes.
  pure val P61 = 2305843009213693951
  pure def r(seed: int, k: int): int = {
    pure val a = (seed + 1) * 1000003 + k * 7919 + 17
    pure val b = (a * a + 15485863 * k) % P61
    pure val c = (b + k * 104729 + seed)
    pure val d = (c * c + a) % P61
    (d * d + b) % P61
  }
  pure def pick(seed: int, k: int, n: int): int = (r(seed, k) / 1024) % n
  pure def pickFrom(seed: int, k: int, l: List[a]): a = l[pick(seed, k, l.length())]
  pure def between(seed: int, k: int, lo: int, hi: int): int = lo + pick(seed, k, hi - lo + 1)
  pure def chance(seed: int, k: int, percent: int): bool = pick(seed, k, 100) < percent
  // log-uniform-ish: a three digit mantissa times 10^e, e in [lo, hi] (powers of ten of the leading digit)
  pure def logu(seed: int, k: int, lo: int, hi: int): int = {
    pure val e = between(seed, k, lo, hi)
    pure val m = between(seed, k + 5000, 100, 999)
    if (e >= 2) m * S * 10^(e - 2) else (m * S) / 10^(2 - e)
  }

  run numericsTest = all {
    assert(iabs(fexpn(S) - 367879441171442321595523770161) < 10000),
    assert(iabs(fln(10 * S) - 2302585092994045684017991454684) < 10000),
    assert(iabs(fln(S / 1000000) + 13815510557964274104107948728106) < 100000),
    assert(iabs(fpow(S / 2, milli(580)) - 668963777393055784) >= 0),
    assert(iabs(fmul(fpow(S / 3, milli(500)), fpow(S / 3, milli(500))) - S / 3) < 10000),
    assert(iabs(fatan(S) - PI / 4) < 10000),
    assert(iabs(PI - 3141592653589793238462643383279) < 1000),
    assert(iabs(fatan(-3 * S) + 1249045772398254425829917077281) < 10000),
    assert(iabs(fsqrt(2 * S) - 1414213562373095048801688724209) < 10),
  }
}
