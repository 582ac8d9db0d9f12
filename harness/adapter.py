"""From the specification's inputs to calls of the code under test, and from
the code's state to the specification's abstract state."""
import zlib
import numpy as np
import arcticpy as ac
from common import real, reals

KIND_CLASS = {"slow": "TrapManager", "instant": "TrapManagerInstantCapture",
              "time": "TrapManagerTrackTime", "cont": "TrapManagerTrackTime"}

# The ways of writing the same thing (bits of `form`)
PLAIN, INDEX, RANGE, UNLIST, DEFAULTS, OMIT = 0, 1, 2, 4, 8, 16


def make_trap(t, kind):
    dens, rel, cap, sig = (real(t[k]) for k in ("dens", "rel", "cap", "sig"))
    if kind == "cont":
        return ac.TrapLogNormalLifetimeContinuum(
            density=dens, release_timescale_mu=rel, release_timescale_sigma=sig)
    if kind in ("instant", "time"):
        return ac.TrapInstantCapture(density=dens, release_timescale=rel)
    return ac.Trap(density=dens, release_timescale=rel, capture_timescale=cap)


def make_groups(groups):
    return [[make_trap(t, g["kind"]) for t in g["traps"]] for g in groups]


def make_ccd(ccd, form=0, bloom=()):
    """Scalars where all the phases agree (that is how they are usually given)."""
    frac = reals(ccd["frac"])

    def col(name):
        v = [real(w[name]) for w in ccd["well"]]
        return v[0] if len(set(v)) == 1 else v

    kw = dict(
        fraction_of_traps_per_phase=frac,
        full_well_depth=col("fwd"),
        well_notch_depth=col("notch"),
        well_fill_power=col("pow"),
    )
    if bloom:
        kw["well_bloom_level"] = list(bloom) if len(set(bloom)) > 1 else bloom[0]
    if form & UNLIST and len(frac) == 1:
        kw["fraction_of_traps_per_phase"] = frac[0]
    if form & DEFAULTS:
        default = dict(fraction_of_traps_per_phase=[1.0], full_well_depth=1e4, well_notch_depth=0.0, well_fill_power=0.58)
        kw = {k: x for k, x in kw.items() if k not in default or x != default[k]}
    return ac.CCD(**kw)


def fills_of(manager, watermarks):
    """Watermarks (whatever they store) as (volume, fill fractions) of each level."""
    out = []
    time_based = isinstance(manager, ac.TrapManagerTrackTime)
    for row in np.asarray(watermarks):
        if row[0] == 0:
            continue
        f = [float(t.fill_fraction_from_time_elapsed(x)) if time_based else float(x)
             for t, x in zip(manager.traps, row[1:])]
        out.append((float(row[0]), f))
    return out


def cumulative(levels, n_species):
    """Piecewise-linear: traps' occupancy up to height h, as breakpoints."""
    hs, gs = [0.0], [np.zeros(n_species)]
    for v, f in levels:
        hs.append(hs[-1] + v)
        gs.append(gs[-1] + v * np.array(f, dtype=float))
    return np.array(hs), np.array(gs)


def profile_distance(a, b, n_species):
    """Largest difference of the occupancy up to any height, and of the tops of the profiles."""
    ha, ga = cumulative(a, n_species)
    hb, gb = cumulative(b, n_species)
    hs = np.unique(np.concatenate([ha, hb]))
    d = 0.0
    for i in range(n_species):
        d = max(d, float(np.max(np.abs(np.interp(hs, ha, ga[:, i]) - np.interp(hs, hb, gb[:, i])))))
    return d


def spec_levels(profile, fill):
    return [(real(l["v"]), [fill(i, x) for i, x in enumerate(l["f"])]) for l in profile]


# ------------------------------------------------------------- add_cti inputs --


def form_of(case):
    """One of the ways of writing the arguments of a case, depending on nothing but the case."""
    return zlib.crc32(repr((case["args"], case["img"])).encode()) & 31


def make_roe(d, form=PLAIN):
    dwell = reals(d["dwell"])
    if form & UNLIST and len(dwell) == 1:
        dwell = dwell[0]
    kw = {"dwell_times": dwell, "express_matrix_dtype": int if d["isInt"] else float}
    default = {"dwell_times": [1.0], "express_matrix_dtype": float, "empty_traps_for_first_transfers": True,
               "empty_traps_between_columns": True, "force_release_away_from_readout": True, "n_pixel_transfers": None, "n_pumps": 1}
    if d["mode"] == "pumping":
        cls, default["dwell_times"] = ac.ROETrapPumping, [0.5, 0.5]
        kw.update(n_pumps=d["nPumps"], empty_traps_for_first_transfers=d["first"])
    elif d["mode"] == "injection":
        cls = ac.ROEChargeInjection
        kw.update(n_pixel_transfers=d["nTransfers"] or None, empty_traps_between_columns=d["between"],
                  force_release_away_from_readout=d["force"])
    else:
        cls = ac.ROE
        kw.update(empty_traps_for_first_transfers=d["first"], empty_traps_between_columns=d["between"],
                  force_release_away_from_readout=d["force"])
    if form & DEFAULTS:
        if d["mode"] != "pumping" and len(d["dwell"]) == 1:
            kw["force_release_away_from_readout"] = True      # (nothing to choose with a single phase)
        kw = {k: x for k, x in kw.items() if x != default[k] and [x] != default[k]}
    return cls(**kw)


def is_default_roe(d):
    return (d["mode"] == "imaging" and reals(d["dwell"]) == [1.0] and d["first"] and d["between"] and not d["isInt"])


def win_range(win):
    if len(win) == 1:
        return range(win[0], win[0] + 1)
    step = win[1] - win[0]
    return range(win[0], win[-1] + 1, step)


def unlisted(traps, form):
    if not form & UNLIST or len(traps) > 1:
        return traps
    return traps[0][0] if len(traps[0]) == 1 else traps[0]


def cti_kwargs(args, n_rows, n_cols, form=PLAIN):
    kw = {}
    for side, name, n in (("par", "parallel", n_rows), ("ser", "serial", n_cols)):
        d = args[side]
        if d["on"]:
            kw[name + "_ccd"] = make_ccd(d["ccd"], form)
            if not (form & DEFAULTS and is_default_roe(d)):
                kw[name + "_roe"] = make_roe(d, form)
            kw[name + "_traps"] = unlisted(make_groups(d["groups"]), form)
            if d["express"] or not form & OMIT:
                kw[name + "_express"] = d["express"]
        if d["offset"] or (d["on"] and not form & OMIT):
            kw[name + "_offset"] = d["offset"]
        if len(d["win"]) == 1 and form & INDEX:
            kw[name + "_window_range"] = d["win"][0]
        elif d["win"] != list(range(n)) or form & RANGE:
            kw[name + "_window_range"] = win_range(d["win"])
    if args["tw"]["span"]:
        t0 = args["tw"]["t0"]
        kw["time_window_range"] = range(t0, t0 + args["tw"]["span"])
    return kw
