// -*- mode: Bluespec; -*-
// State machine: a CCD whose user changes its parameters, for all the phases at
// once or each on its own, and asks how electrons fill its phases.
module m_ccd {
  import fixed.* from "./fixed"
  import model.* from "./model"
  import gen.* from "./gen"

  type Call = { op: str, name: str, scalar: bool, values: List[int], ok: bool, phase: int, n: int, n2: int }
  var ccd: Ccd
  var bloom: List[int]          // bloom level of each phase ([]: not known)
  var bloomSet: bool            // by the user (else: as deep as the well)
  var call: Call
  var volume: int
  var volume2: int
  var surface: List[List[int]]  // the fraction of the surface of the phase in question that some numbers of electrons reach

  pure val NAMES = ["full_well_depth", "well_notch_depth", "well_fill_power", "full_well_depth", "well_notch_depth", "well_fill_power",
                    "fraction_of_traps_per_phase", "well_bloom_level"]
  pure val PER_PHASE = ["full_well_depth", "well_notch_depth", "well_fill_power", "well_bloom_level"]
  pure def genValue(seed: int, k: int, name: str): int =
    if (name == "full_well_depth" or name == "well_bloom_level") logu(seed, k, 2, 4) + 100 * S
    else if (name == "fraction_of_traps_per_phase") milli(between(seed, k, 1, 1000))
    else if (name == "well_notch_depth") (if (chance(seed, k, 40)) 0 else between(seed, k + 1, 1, 99) * S)
    else pickFrom(seed, k, [S, milli(500), milli(580), milli(478), milli(800), milli(300), milli(1300), 2 * S])
  pure def withParam(w: Well, name: str, x: int): Well =
    if (name == "full_well_depth") { ...w, fwd: x } else if (name == "well_notch_depth") { ...w, notch: x } else { ...w, pow: x }
  pure def setParam(c: Ccd, name: str, scalar: bool, values: List[int]): Ccd =
    if (name == "well_bloom_level") c
    else if (name == "fraction_of_traps_per_phase") { frac: values, well: c.well }
    else { frac: c.frac, well: tabulate(c.well.length(), p => withParam(c.well[p], name, if (scalar) values[0] else values[p])) }

  // Surface traps are reached from the bloom level on; if that is not below full well, blooming is not possible
  pure def surfaceVolume(fwd: int, level: int, n: int): int =
    if (level >= fwd or n <= level) 0 else if (n >= fwd) S else fdiv(n - level, fwd - level)

  pure def depths(c: Ccd): List[int] = tabulate3(c.well.length(), p => c.well[p].fwd)
  action construct = {
    nondet seed = 0.to(2^40).oneOf()
    pure val nPh = between(seed, 1, 1, 5)
    pure val c = genCcd(seed, 100, nPh, chance(seed, 2, 50))
    pure val given = chance(seed, 3, 40)
    pure val levels = tabulate2(nPh, i => genValue(seed, 60 + 10 * i, "well_bloom_level"))
    all { ccd' = c, volume' = 0, volume2' = 0, surface' = [], bloom' = if (given) levels else depths(c), bloomSet' = given,
      call' = { op: "construct", name: "", scalar: false, values: if (given) levels else [], ok: true, phase: 0, n: 0, n2: 0 } }
  }
  // An attempt to construct another one with a list of the wrong length
  action misconstruct = {
    nondet seed = 0.to(2^40).oneOf()
    val nPh = ccd.frac.length()
    pure val name = pickFrom(seed, 1, PER_PHASE)
    val wrong = between(seed, 2, 1, 5)
    val len = if (wrong >= nPh) wrong + 1 else wrong
    all { ccd' = ccd, volume' = 0, volume2' = 0, surface' = [], bloom' = bloom, bloomSet' = bloomSet,
      call' = { op: "misconstruct", name: name, scalar: false, values: tabulate2(len, i => genValue(seed, 50 + 10 * i, name)),
                ok: false, phase: 0, n: 0, n2: 0 } }
  }
  action configure = {
    nondet seed = 0.to(2^40).oneOf()
    val nPh = ccd.frac.length()
    pure val name = pickFrom(seed, 1, NAMES)
    val phases = name == "fraction_of_traps_per_phase"        // (which says how many phases there are)
    val scalar = if (phases) nPh == 1 and chance(seed, 2, 40) else chance(seed, 2, 40)
    val len = if (scalar) 1 else if (phases or chance(seed, 3, 75)) nPh else between(seed, 4, 1, 6)
    val values = tabulate2(len, i => genValue(seed, 50 + 10 * i, name))
    val ok = scalar or len == nPh
    all {
      // a list of the wrong length is refused
      ccd' = if (ok) setParam(ccd, name, scalar, values) else ccd,
      bloom' = if (not(ok)) bloom
               else if (name == "well_bloom_level") tabulate3(nPh, p => if (scalar) values[0] else values[p])
               else if (name == "full_well_depth" and not(bloomSet)) [] else bloom,
      bloomSet' = (bloomSet or (ok and name == "well_bloom_level")),
      call' = { op: "assign", name: name, scalar: scalar, values: values, ok: ok, phase: 0, n: 0, n2: 0 },
      volume' = 0, volume2' = 0, surface' = [],
    }
  }
  pure def genPacket(seed: int, k: int, w: Well): int = {
    pure val c = pick(seed, k, 12)
    if (c == 0) 0 else if (c == 1) w.notch else if (c == 2) w.fwd else if (c == 3) w.fwd * between(seed, k + 1, 1, 4)
    else if (c == 4) -between(seed, k + 1, 1, 50) * S else if (c == 5) logu(seed, k + 1, -4, 1)
    else if (c == 6) fmul(w.notch, milli(between(seed, k + 1, 1, 999)))
    else w.notch + fmul(w.fwd - w.notch, micro(between(seed, k + 1, 1, 999999)))
  }
  action query = {
    nondet seed = 0.to(2^40).oneOf()
    val p = pick(seed, 1, ccd.frac.length())
    val a = genPacket(seed, 10, ccd.well[p])
    val b = genPacket(seed, 20, ccd.well[p])
    all {
      ccd' = ccd, bloom' = bloom, bloomSet' = bloomSet,
      call' = { op: "query", name: "", scalar: false, values: [], ok: true, phase: p, n: a, n2: b },
      volume' = cloudVolume(ccd.well[p], a), volume2' = cloudVolume(ccd.well[p], b),
      surface' = if (bloom.length() == 0) [] else {
        val level = bloom[p]
        val fwd = ccd.well[p].fwd
        val above = imax(0, fwd - level)
        List(a, b, level, fwd, level + fmul(above, micro(between(seed, 30, 1, 999999))), fwd + between(seed, 31, 1, 500) * S)
          .foldl([], (l, n) => l.append([n, surfaceVolume(fwd, level, n)]))
      },
    }
  }
  action init = construct
  action step = {
    nondet c = 0.to(19).oneOf()
    if (c == 0) construct else if (c == 1) misconstruct else if (c < 7) configure else query
  }

  // ------------------------------------------------------------- properties --
  // C07: a fraction of the phase; none in the notch, all at full well; more electrons never fill less
  val w = ccd.well[call.phase]
  val inv = call.op == "query" implies and {
    0 <= volume and volume <= S,
    call.n <= w.notch implies volume == 0,
    call.n >= w.fwd implies volume == S,
    (call.n <= call.n2) implies volume <= volume2 + 1000,
    (call.n > w.notch + S) implies volume > 0,
    surface.indices().forall(i => surface.indices().forall(j => and {
      0 <= surface[i][1] and surface[i][1] <= S,
      surface[i][0] <= surface[j][0] implies surface[i][1] <= surface[j][1],
      (bloom[call.phase] >= w.fwd) implies surface[i][1] == 0,
    })),
  }
}
