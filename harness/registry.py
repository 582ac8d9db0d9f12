"""Which machines of the specification decide which property, and how deeply.

quick: the check to run on every change (tens of seconds).  thorough: the same
machines for (many) more shards, each with its own seed, and longer histories.
"""
T = "m_traps.qnt"
C = "m_cti.qnt"
R = "m_roe.qnt"


def sim(main, spec, replay, samples, steps, **kw):
    """Quint simulates `main` (its invariant `inv` checked in every state); `replay` does the same with the code."""
    return dict(main=main, spec=spec, replay=replay, samples=samples, steps=steps, **kw)


def histories(events, runs, **kw):
    """Histories recorded from the code under users' programs, followed by the specification (history.qnt)."""
    return dict(replay="record", judge=("history", "history.qnt"), ctx={"events": [events, runs]}, **kw)


def deeper(job, tier, shards=None, factor=8):
    """In the thorough tier: `factor` times as many shards."""
    if tier == "quick":
        return job
    return dict(job, shards=factor * (shards or job.get("shards", 8)))


def jobs(*js, factor=8):
    return lambda tier: [deeper(j, tier, factor=factor) for j in js]


def cti(focus, steps, samples=6, shards=8):
    return sim("cti_" + focus, C, "replay_cti", samples, steps, shards=shards)


def words(kind, variants, depth=3):
    """Every history of up to `depth` transfers (one more in the thorough tier) of 12 different ones."""
    size = sum(12 ** k for k in range(1, depth + 1))
    deep = sum(12 ** k for k in range(1, depth + 2))
    return lambda tier: [sim(f"words_{kind}{v}", "m_words.qnt", "replay_words", 1, size - 1, shards=1) if tier == "quick"
                         else sim(f"deep_{kind}{v}", "m_words.qnt", "replay_words", 1, deep - 1, shards=1) for v in range(variants)]


def grid(name, size, n):
    """One of the exhaustive grids, in n parts."""
    return [sim(f"roe_{name}{i}", R, "replay_roe", 1, size // n - 1, shards=1) for i in range(n)]



PROPERTIES = {}


def prop(pid, jobs, rule, level="exploration", assumptions=(), **kw):
    PROPERTIES[pid] = dict(level=level, jobs=jobs, rule=rule, assumptions=list(assumptions) + COMMON, **kw)


COMMON = [
    "Python, NumPy, SciPy and Cython, which the code is built from, compute what they document",
    "conformance holds up to floating point: tolerances of 1e-9 (formulas), 1e-8 (traps), 2e-8 electrons (images), "
    "wider for continua of lifetimes, which the code integrates numerically",
]
IMAGES = ("Quint draws whole cases (image, electronics, CCD, trap groups, windows, express...) for this focus of m_cti, "
          "computes the readout in exact fixed-point arithmetic, and the same call is made to the code; "
          "non-trivial: the expected image differs from the input by more than 1e-3 electrons somewhere; distinct by all inputs")
TRAPS = ("Quint draws a pixel (CCD, groups, species) and a history of packets, savings, restorations and resets, and follows the "
         "occupancy profile; the same history is played to the code and compared after every event; "
         "non-trivial: at least three different exchanges of charge in the history; distinct by kinds and exchanges")

EVERY = ("; and EVERY history of up to 3 transfers (2 for continua; one more in the thorough tier) among 12 packets and dwell times, "
         "in several pixels (m_words, exhaustive)")

prop("C01", jobs(sim("traps_all", T, "replay_traps", 8, 25, shards=3), sim("traps_slow", T, "replay_traps", 15, 40, shards=2),
                 sim("traps_instant", T, "replay_traps", 20, 40, shards=2), sim("traps_time", T, "replay_traps", 12, 40, shards=1),
                 histories(40, 1)), TRAPS
     + "; also histories recorded from real programs, judged by history.qnt")
prop("C02", jobs(sim("traps_slow", T, "replay_traps", 10, 90, shards=3), sim("traps_instant", T, "replay_traps", 10, 90, shards=3),
                 sim("traps_all", T, "replay_traps", 6, 50, shards=2)), TRAPS
     + "; including histories many times longer than the number of transfers that was announced")
prop("C03", lambda tier: words("slow", 4)(tier) + jobs(sim("traps_slow", T, "replay_traps", 30, 40))(tier), TRAPS + EVERY)
prop("C04", lambda tier: words("instant", 4)(tier) + jobs(sim("traps_instant", T, "replay_traps", 30, 40))(tier), TRAPS + EVERY)
prop("C05", lambda tier: words("time", 2)(tier) + words("cont", 2, depth=2)(tier)
     + jobs(sim("traps_time", T, "replay_traps", 30, 40), sim("traps_cont", T, "replay_traps", 6, 15), factor=6)(tier), TRAPS + EVERY)
prop("C22", jobs(histories(40, 1), sim("traps_all", T, "replay_traps", 12, 25)), TRAPS
     + "; also histories recorded from real programs, judged by history.qnt")

prop("C06", jobs(sim("species_kinetics", "m_species.qnt", "replay_species", 4, 80, shards=2),
                 sim("species_continuum", "m_species.qnt", "replay_species", 2, 25, shards=6)),
     "Quint draws species in many units of time, and times, and computes survival and fill probabilities (series for exp and ln, "
     "quadrature for continua); non-trivial: a survival strictly between 0 and 1; distinct by species and times")
prop("C07", jobs(sim("m_ccd", "m_ccd.qnt", "replay_ccd", 5, 50)),
     "Quint drives one CCD through constructions, settings (by number, by list, of wrong lengths) and questions; "
     "non-trivial: any question or setting; distinct by step, CCD and question")



GRID = grid("grid", 6336, 8)
SCHEDULES = ("Quint computes the schedule (multipliers, monitoring, saving) for readouts drawn at random{}; the code's matrices are "
             "compared entry by entry; non-trivial: more than one pass; distinct by all arguments")
prop("C08", lambda tier: GRID + [deeper(sim("roe_any", R, "replay_roe", 3, 45), tier)],
     SCHEDULES.format(", and for EVERY readout of up to 6 rows and every last part of them as the window, offset 0..3, express 0..10, in both number types and with or without "
                      "first transfers (grid, exhaustive: 6336 readouts)"))
prop("C09", lambda tier: grid("gridtime", 6048, 8) + jobs(sim("roe_time", R, "replay_roe", 3, 50, shards=4), cti("time", 160))(tier),
     SCHEDULES.format(" with time windows, and for EVERY time window of every readout of up to 4 rows, offset 0..2, express 0..5 (grid, exhaustive: 6048)") + "; and " + IMAGES
     + "; 'sequel' twins: the readout split in two calls, judged against the whole")
prop("C10", jobs(cti("express", 160), cti("large", 100, samples=3, shards=3), sim("roe_any", R, "replay_roe", 3, 45, shards=2)), IMAGES
     + "; and the savings of trap states in schedules drawn at random")
prop("C11", lambda tier: [sim("roe_clock", R, "replay_roe", 1, 36, shards=1)],
     "every clock sequence of up to 12 phases, with and without forced release, and of trap pumping with 2..24 steps: exhaustive; "
     "distinct by number of steps and kind")
prop("C12", jobs(cti("single", 150), cti("large", 100, samples=4, shards=4)), IMAGES)
prop("C13", jobs(cti("multi", 130)), IMAGES)
prop("C14", jobs(cti("windows", 150), cti("vast", 80, samples=4, shards=2)), IMAGES)
prop("C15", jobs(cti("both", 220), cti("vast", 80, samples=4, shards=1)), IMAGES)
prop("C16", jobs(cti("columns", 160)), IMAGES)
prop("C17", jobs(cti("session", 130)), IMAGES
     + "; one set of live objects per trace is used again and again, and inspected before and after every call")
prop("C18", jobs(cti("remove", 220)), IMAGES)
prop("C19", lambda tier: grid("gridinjection", 3360, 4)
     + jobs(sim("roe_injection", R, "replay_roe", 4, 50, shards=2), cti("injection", 160))(tier),
     SCHEDULES.format(" of charge injection, and for EVERY number of up to 6 transfers over up to 3 rows, offset 0..1, express 0..7 (grid, exhaustive: 3360)") + "; and " + IMAGES)
prop("C20", lambda tier: grid("gridpumping", 1152, 2)
     + jobs(sim("roe_pumping", R, "replay_roe", 4, 50, shards=2), cti("pumping", 150))(tier),
     SCHEDULES.format(" of trap pumping, and for EVERY number of up to 16 pumps, express 0..17, flag and number type (grid, exhaustive: 1152), one pixel or a few") + "; and " + IMAGES + "; 'sequel' twins: the pixels in two calls")
prop("C21", jobs(cti("image", 110)), IMAGES)
prop("C23", jobs(sim("m_hst", "m_hst.qnt", "replay_hst", 3, 25)),
     "Quint draws dates (around the key dates, and anywhere from before launch to 2020s) and exposures, and computes the preset "
     "model and the readout with it; every case is non-trivial; distinct by date and exposure")
prop("C24", jobs(cti("forms", 130)), IMAGES)
prop("C25", jobs(sim("m_population", "m_population.qnt", "replay_population", 1, 8, judge=("draws", "draws.qnt"))),
     "Quint draws species, shapes and seeds; what the code draws for them is judged by draws.qnt; distinct by all inputs")
prop("C26", jobs(cti("frames", 150)), IMAGES)
