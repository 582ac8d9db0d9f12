"""Runs users' programs on the real code and records, from outside, everything
that happens to the traps: one record per event, judged by spec/history.qnt."""
import inspect
import random
import numpy as np
import arcticpy as ac
from arcticpy import trap_managers as tm
from adapter import KIND_CLASS


class Q:
    def __init__(self, x):
        self.x = float(x)


NO_CCD = {"frac": [], "well": []}


class Recorder:
    def __init__(self, limit):
        self.limit = limit
        self.records = []
        self.atm = None
        self.kinds = None
        self.undo = []

    def add(self, op, ph=0, g=0, n=0.0, dt=0.0, net=0.0, held=0.0, ccd=NO_CCD, groups=()):
        if len(self.records) < self.limit:
            self.records.append({"op": op, "ph": ph, "g": g, "n": Q(n), "dt": Q(dt), "net": Q(net), "held": Q(held),
                                 "ccd": ccd, "groups": list(groups)})

    def patch(self, cls, name, make):
        if name not in cls.__dict__:
            return
        old = cls.__dict__[name]
        setattr(cls, name, make(old))
        self.undo.append((cls, name, old))

    def __enter__(self):
        rec = self

        def init(old):
            def wrapped(atm, *args, **kw):
                old(atm, *args, **kw)
                names = ("traps", "max_n_transfers", "ccd")
                given = dict(zip(names, args), **kw)
                rec.opened(atm, given["traps"], given["ccd"])
            return wrapped

        def note(op):
            def make(old):
                def wrapped(atm, *args, **kw):
                    out = old(atm, *args, **kw)
                    rec.add(op)
                    return out
                return wrapped
            return make

        depth = [0]

        def transfer(old):
            signature = inspect.signature(old)

            def wrapped(m, *args, **kw):
                given = signature.bind(m, *args, **kw).arguments
                depth[0] += 1
                try:
                    out = old(m, *args, **kw)
                finally:
                    depth[0] -= 1
                if depth[0] == 0 and rec.atm is not None:
                    for ph, ms in enumerate(rec.atm):
                        for g, x in enumerate(ms):
                            if x is m:
                                rec.add("transfer", ph, g, given["n_free_electrons"], given.get("dwell_time", 1), out,
                                        m.n_trapped_electrons_from_watermarks(m.watermarks))
                return out
            return wrapped

        self.patch(tm.AllTrapManager, "__init__", init)
        self.patch(tm.AllTrapManager, "save", note("save"))
        self.patch(tm.AllTrapManager, "restore", note("restore"))

        # (restore() empties the traps when nothing was saved: that is part of it)
        def empty(old):
            def wrapped(atm):
                old(atm)
                if not rec.restoring:
                    rec.add("empty")
            return wrapped

        def restoring(old):
            def wrapped(atm):
                rec.restoring = True
                try:
                    return old(atm)
                finally:
                    rec.restoring = False
            return wrapped

        self.restoring = False
        self.patch(tm.AllTrapManager, "restore", restoring)
        self.patch(tm.AllTrapManager, "empty_all_traps", empty)
        for cls in (tm.TrapManager, tm.TrapManagerInstantCapture, tm.TrapManagerTrackTime):
            self.patch(cls, "n_electrons_released_and_captured", transfer)
        return self

    def __exit__(self, *a):
        for cls, name, old in reversed(self.undo):
            setattr(cls, name, old)

    def opened(self, atm, traps, ccd):
        self.atm = atm
        if not isinstance(traps, list):
            traps = [traps]
        if not isinstance(traps[0], list):
            traps = [traps]
        groups = []
        for g in traps:
            if isinstance(g[0], ac.TrapLogNormalLifetimeContinuum):
                kind = "cont"
            elif isinstance(g[0], ac.TrapInstantCapture):
                kind = "instant"
            else:
                kind = "slow"
            groups.append({"kind": kind, "traps": [
                {"dens": Q(t.density), "rel": Q(t.release_timescale_mu if kind == "cont" else t.release_timescale),
                 "cap": Q(t.capture_timescale), "sig": Q(getattr(t, "release_timescale_sigma", 0.0) if kind == "cont" else 0.0)}
                for t in g]})
        wells = [{"fwd": Q(a), "notch": Q(b), "pow": Q(c)} for a, b, c in
                 zip(ccd.full_well_depth, ccd.well_notch_depth, ccd.well_fill_power)]
        self.add("open", ccd={"frac": [Q(x) for x in ccd.fraction_of_traps_per_phase], "well": wells}, groups=groups)


# ------------------------------------------------------------------ programs --
def species(rng, slow):
    if slow:
        return [ac.Trap(density=rng.uniform(1, 30), release_timescale=rng.uniform(0.3, 20),
                        capture_timescale=rng.choice([0, 0.01, 0.1, 0.5])) for _ in range(rng.randint(1, 3))]
    return [ac.TrapInstantCapture(density=rng.uniform(1, 30), release_timescale=rng.uniform(0.3, 20))
            for _ in range(rng.randint(1, 3))]


def image_of(rng, rows, cols):
    img = np.array([[rng.choice([0, 0, rng.uniform(0, 40), rng.uniform(0, 500)]) for _ in range(cols)] for _ in range(rows)])
    img[rng.randrange(rows), 0] = rng.uniform(100, 3000)
    return img


def a_detector(rng, phases=1):
    frac = [round(rng.uniform(0.1, 0.5), 3) for _ in range(phases)]
    return ac.CCD(fraction_of_traps_per_phase=frac if phases > 1 else [1], full_well_depth=rng.choice([1e3, 1e4, 84700]),
                  well_notch_depth=rng.choice([0.0, 0.0, 50.0]), well_fill_power=rng.choice([1.0, 0.58, 0.478, 0.8]))


def plain_readout(rng):
    img = image_of(rng, rng.randint(8, 20), 2)
    ac.add_cti(image=img, parallel_traps=species(rng, True), parallel_ccd=a_detector(rng), parallel_roe=ac.ROE(),
               parallel_express=rng.choice([1, 2, 5]), parallel_offset=rng.choice([0, 3]))


def old_arctic(rng):
    img = image_of(rng, rng.randint(8, 20), 2)
    ac.add_cti(image=img, parallel_traps=species(rng, False), parallel_ccd=a_detector(rng),
               parallel_roe=ac.ROE(empty_traps_between_columns=False), parallel_express=rng.choice([1, 3, 0]))


def hubble(rng):
    traps, ccd, roe = ac.model_for_HST_ACS(rng.uniform(2452340, 2456000))
    img = image_of(rng, 12, 1) * 10
    ac.remove_cti(image=img, iterations=2, parallel_traps=traps, parallel_ccd=ccd, parallel_roe=roe, parallel_express=2)


def three_phases(rng):
    img = image_of(rng, 6, 1)
    ac.add_cti(image=img, parallel_traps=[species(rng, True), species(rng, False)], parallel_ccd=a_detector(rng, 3),
               parallel_roe=ac.ROE(dwell_times=[0.33, 0.33, 0.34]), parallel_express=2)


def injected_lines(rng):
    img = image_of(rng, 10, 1)
    img[3:6] = 800
    ac.add_cti(image=img, parallel_traps=species(rng, True), parallel_ccd=a_detector(rng),
               parallel_roe=ac.ROEChargeInjection(n_pixel_transfers=rng.choice([None, 8])), parallel_express=3)


def pocket_pumping(rng):
    img = np.full((5, 1), rng.uniform(50, 500))
    ac.add_cti(image=img, parallel_traps=species(rng, True), parallel_ccd=a_detector(rng, 3),
               parallel_roe=ac.ROETrapPumping(dwell_times=[1 / 6] * 6, n_pumps=rng.choice([3, 10])), parallel_window_range=2,
               parallel_express=3)


def both_directions(rng):
    img = image_of(rng, 5, 5)
    ac.add_cti(image=img, parallel_traps=species(rng, True), parallel_ccd=a_detector(rng), parallel_roe=ac.ROE(), parallel_express=2,
               serial_traps=species(rng, False), serial_ccd=a_detector(rng), serial_roe=ac.ROE(dwell_times=[0.1]), serial_express=2)


def continuum(rng):
    img = image_of(rng, 5, 1)
    t = ac.TrapLogNormalLifetimeContinuum(density=rng.uniform(1, 20), release_timescale_mu=rng.uniform(0.5, 5),
                                          release_timescale_sigma=rng.choice([0.2, 0.5, 1.0]))
    ac.add_cti(image=img, parallel_traps=[t], parallel_ccd=a_detector(rng), parallel_roe=ac.ROE(), parallel_express=1)


PROGRAMS = [plain_readout, old_arctic, hubble, three_phases, injected_lines, pocket_pumping, both_directions, continuum]


def record(ctx):
    rng = random.Random(f"{ctx['seed']}/{ctx['property']}/{ctx['shard']}")
    program = PROGRAMS[ctx["shard"] % len(PROGRAMS)]
    per, runs = ctx["events"]
    if program is continuum:
        per, runs = min(per, 25), 1
    for _ in range(runs):
        with Recorder(per) as rec:
            program(rng)
        ctx["records"] += rec.records
        yield 1, repr((program.__name__, [(r["op"], r["n"].x, r["net"].x) for r in rec.records[:12]])), True, []
