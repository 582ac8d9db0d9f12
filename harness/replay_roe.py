"""Replays the m_roe machine: schedules and clock sequences of the real ROE classes."""
import numpy as np
import arcticpy as ac
from adapter import win_range

TOL = 1e-9


def make(q):
    dtype = int if q["isInt"] else float
    if q["mode"] == "injection":
        return ac.ROEChargeInjection(n_pixel_transfers=q["nTransfers"] or None, express_matrix_dtype=dtype)
    if q["mode"] == "pumping":
        # (the dtype: integers too where they divide; see matrices())
        return ac.ROETrapPumping(dwell_times=[1.0] * 2, n_pumps=q["nPumps"],
                                 empty_traps_for_first_transfers=q["first"], express_matrix_dtype=dtype)
    return ac.ROE(empty_traps_for_first_transfers=q["first"], express_matrix_dtype=dtype)


def matrices(roe, q, t0=None, span=None):
    w = q["win"]
    t0, span = (q["t0"], q["span"]) if span is None else (t0, span)
    pixels = win_range(w)
    if w[0] == 0 and (len(w) + q["express"]) % 2:
        pixels = len(w)           # an integer number of pixels means the same
    if q["mode"] == "pumping":
        pixels = w[0] if len(w) == 1 and q["express"] % 2 else w
    kw = dict(pixels=pixels, express=q["express"], offset=q["offset"],
              time_window_range=range(t0, t0 + span) if span else None)
    if len(w) % 2:
        # what is not given has its default value
        kw = {k: v for k, v in kw.items() if k == "pixels" or v}
    mult, mon = roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express(**kw)
    return np.asarray(mult, dtype=float), np.asarray(mon)


def compare(what, got, want, bad, d, exact=False):
    if got.shape != want.shape:
        bad.append({"what": what + ": shape", "spec": want.shape, "code": got.shape, "query": d})
    elif exact and not np.array_equal(got, want):
        bad.append({"what": what, "spec": want.tolist(), "code": got.tolist(), "query": d})
    elif not exact and not np.all(np.abs(got - want) <= TOL * (1 + np.abs(want))):
        bad.append({"what": what, "spec": want.tolist(), "code": got.tolist(), "query": d})


def integers(q, roe, bad, d):
    """Integer trap pumping where the passes do not share the pumps evenly: what any choice must satisfy."""
    mult, mon = matrices(roe, q)
    e = min(q["express"] or q["nPumps"], q["nPumps"])
    first = q["first"] and q["nPumps"] > 1 and e < q["nPumps"]
    n = e + first
    m = mult[:n, 0]
    if mult.shape != (n * len(q["win"]), len(q["win"])) or not np.array_equal(mult, np.kron(np.eye(len(q["win"])), m[:, None])) or not np.all(m == np.round(m)) or np.any(m < 1) or np.sum(m) != q["nPumps"] \
            or (first and m[0] != 1) or np.any(np.abs(m[int(first):] - (q["nPumps"] - first) / e) >= 1):
        bad.append({"what": "integer multipliers for trap pumping", "code": mult.tolist(), "query": d})


def replay(states, ctx):
    for st in states:
        q = st["query"]
        yield replay_clock(st) if st["seq"] else replay_query(st, q)


def replay_query(st, q):
    bad = []
    d = {k: v for k, v in q.items() if k not in ("nSteps", "nPhases", "force")}
    s = st["sched"]
    n = 1
    if q["mode"] == "pumping" and q["isInt"]:
        e = min(q["express"] or q["nPumps"], q["nPumps"])
        first = q["first"] and q["nPumps"] > 1 and e < q["nPumps"]
        if (q["nPumps"] - first) % e:
            integers(q, make(q), bad, d)
            return 1, repr(d), True, bad
    roe = make(q)
    mult, mon = matrices(roe, q)
    want = np.array(s["mult"], dtype=float) / s["den"]
    compare("express multipliers", mult, want, bad, d)
    compare("when the traps are monitored", mon.astype(bool), np.array(s["mon"]), bad, d, exact=True)
    if not bad:
        save = np.asarray(roe.save_trap_states_matrix_from_express_matrix(express_matrix=mon))
        ws = np.zeros(want.shape, dtype=bool)
        for k, row in enumerate(s["save"]):
            if row >= 0:
                ws[k, row] = True
        compare("when the trap states are saved", save.astype(bool), ws, bad, d, exact=True)
    if len(q["win"]) > 1 and q["express"] == 1 and refused(lambda: setattr(roe, "express_matrix_dtype", str)) is None:
        bad.append({"what": "multipliers that are neither whole nor real numbers were accepted", "query": d})
    if st["parts"] and not bad:
        whole = matrices(make(q), q, 0, 0)
        tot = np.zeros(whole[0].shape)
        for i, p in enumerate(st["parts"]):
            n += 1
            a, b = st["cuts"][i], st["cuts"][i + 1]
            m, mo = matrices(roe, q, a, b - a)
            compare(f"express multipliers of transfers {a} to {b}", m, np.array(p, dtype=float) / s["den"], bad, d)
            compare("monitoring in a time window", mo.astype(bool), whole[1].astype(bool), bad, d, exact=True)
            tot += m
        if not np.allclose(tot, whole[0], rtol=0, atol=1e-8):
            bad.append({"what": "the pieces of the readout do not add up to the whole", "query": d, "cuts": st["cuts"],
                        "spec": whole[0].tolist(), "code": tot.tolist()})
    return n, repr((d, st["cuts"])), want.size > 1 or len(st["cuts"]) > 2, bad


def replay_clock(st):
    q = st["query"]
    bad = []
    if q["nSteps"] == 2 * q["nPhases"]:
        # (two steps: as if not given)
        roe = ac.ROETrapPumping(*[] if q["nSteps"] == 2 else [[1.0] * q["nSteps"]])
        if q["nSteps"] == 2 and list(roe.dwell_times) != [0.5, 0.5]:
            bad.append({"what": "dwell times if not given", "spec": [0.5, 0.5], "code": list(roe.dwell_times)})
        for dwell in ([1.0] * (q["nSteps"] - 1), [1.0] * (q["nSteps"] + 1), 1.0):
            # not there and back
            if dwell and refused(lambda: ac.ROETrapPumping(dwell_times=dwell)) is None:
                bad.append({"what": "an odd number of steps was accepted for trap pumping", "query": q, "code": repr(dwell)})
    else:
        roe = ac.ROE(dwell_times=[1.0] * q["nSteps"], force_release_away_from_readout=q["force"])
        inj = ac.ROEChargeInjection(dwell_times=[1.0] * q["nSteps"], force_release_away_from_readout=q["force"])
        if clock_of(inj) != clock_of(roe):
            bad.append({"what": "clock sequence of charge injection differs", "query": q})
    want = [[(p["high"], p["cap"], sorted((r, 1 / len(p["rel"])) for r in p["rel"])) for p in s] for s in st["seq"]]
    got = clock_of(roe)
    if got != want:
        for i, (a, b) in enumerate(zip(want, got)):
            if a != b:
                bad.append({"what": f"clock sequence, step {i}: (high, capture from, release to) of each phase",
                            "spec": a, "code": b, "query": q})
        if len(want) != len(got):
            bad.append({"what": "number of steps", "spec": len(want), "code": len(got), "query": q})
    acc = {0} | {p[1] for s in want for p in s} | {r for s in want for p in s for r, _ in p[2]}
    real_acc = [int(x) for x in np.asarray(roe.pixels_accessed_during_clocking).ravel()]
    # (the working area spans from the nearest to the furthest)
    if set(real_acc) != acc:
        bad.append({"what": "pixels accessed during clocking", "spec": sorted(acc), "code": real_acc, "query": q})
    return len(want), repr((q["nSteps"], q["nPhases"], q["force"])), True, bad


def refused(make):
    try:
        make()
    except Exception as e:
        return repr(e)


def clock_of(roe):
    return [[(bool(p.is_high), int(p.capture_from_which_pixel),
              sorted((int(r), float(f)) for r, f in zip(np.atleast_1d(p.release_to_which_pixels),
                                                        np.atleast_1d(p.release_fraction_to_pixel))))
             for p in s] for s in roe.clock_sequence]
