"""Replays the m_hst machine: the preset model for the date of every exposure, and the correction with it."""
import numpy as np
import arcticpy as ac
from adapter import *


def replay(states, ctx):
    for st in states:
        yield replay_exposure(st)


def facts(model):
    traps, ccd, roe = model
    if isinstance(traps[0], list):
        traps = [t for g in traps for t in g]
    return (
        [(float(t.density), float(t.release_timescale), float(t.capture_timescale)) for t in traps],
        [list(map(float, x)) for x in (ccd.fraction_of_traps_per_phase, ccd.full_well_depth, ccd.well_notch_depth, ccd.well_fill_power)],
        ([float(x) for x in np.atleast_1d(roe.dwell_times)], bool(roe.empty_traps_for_first_transfers),
         bool(roe.empty_traps_between_columns), len(roe.clock_sequence)),
    )


def replay_exposure(st):
    e = st["exposure"]
    date = real(e["date"])
    bad = []
    try:
        model = ac.model_for_HST_ACS(date)
        accepted = True
    except AssertionError:
        accepted = False
    key = repr((date, e["express"], e["offset"], e["iterations"], reals(e["img"])))
    if accepted != e["valid"]:
        return 1, key, True, [{"what": "a date that should be " + ("accepted" if e["valid"] else "refused"), "date": date}]
    if not accepted:
        return 1, key, True, []
    got = facts(model)
    want = [(real(t["dens"]), real(t["rel"]), real(t["cap"])) for t in st["traps"]]
    if np.shape(got[0]) != np.shape(want) or not np.allclose(got[0], want, rtol=1e-9, atol=0):
        bad.append({"what": "trap species (density, release time, capture time)", "date": date, "spec": want, "code": got[0]})
    if got[1] != [[1.0], [84700.0], [0.0], [0.478]]:
        bad.append({"what": "the CCD", "date": date, "code": got[1]})
    if got[2] != ([1.0], True, True, 1):
        bad.append({"what": "the readout electronics", "date": date, "code": got[2]})
    img = np.array(reals(e["img"]), dtype=float)
    traps, ccd, roe = model
    kw = dict(parallel_traps=traps, parallel_ccd=ccd, parallel_roe=roe, parallel_express=e["express"], parallel_offset=e["offset"])
    if e["iterations"]:
        out = ac.remove_cti(image=img, iterations=e["iterations"], **kw)
    else:
        out = ac.add_cti(image=img, **kw)
    want_out = np.array(reals(st["out"]))
    if not np.max(np.abs(out - want_out)) <= 2e-8 * (1 + 1e-3 * np.max(img)):
        bad.append({"what": "pixel values with the preset model", "date": date, "case": key, "spec": want_out.tolist(), "code": np.asarray(out).tolist()})
    # the objects are the user's own: changing them changes no other
    traps[0].density = 1e3
    ccd.full_well_depth = 5.0
    traps.append(None)
    again = facts(ac.model_for_HST_ACS(date))
    if again != got:
        bad.append({"what": "the preset model depends on what was done with an earlier one", "date": date, "spec": got, "code": again})
    return 2, key, True, bad
