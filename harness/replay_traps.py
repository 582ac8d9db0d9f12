"""Replays the histories of the m_traps machine on the real trap managers."""
import numpy as np
import arcticpy as ac
from adapter import *

TOL = 1e-8


def tol(kind, scale):
    return (2e-6 if kind == "cont" else TOL) * (1 + scale)


def replay(states, ctx):
    yield replay_history(states, ctx)


def replay_history(states, ctx):
    """Returns (number of steps compared, key of the case, list of disagreements)."""
    bad = []

    def fail(i, what, want, got):
        bad.append({"step": i, "what": what, "spec": want, "code": got})

    setup = states[0]["setup"]
    ccd = make_ccd(setup["ccd"])
    groups = make_groups(setup["groups"])
    kinds = [g["kind"] for g in setup["groups"]]
    n_ph = len(setup["ccd"]["frac"])
    atm = ac.AllTrapManager(traps=groups, max_n_transfers=setup["maxTransfers"], ccd=ccd)
    if kinds == ["time"]:
        # not what the factory would choose for these species
        atm.data = [[ac.TrapManagerTrackTime(traps=groups[0], max_n_transfers=setup["maxTransfers"])]]
        atm.data[0][0].n_traps_per_pixel *= ccd.fraction_of_traps_per_phase[0]
    for phase in atm if ctx["property"] == "C22" else []:
        for m in phase:
            # a number of traps for each species, or refused
            for wrong in ([1.0] * (len(m.traps) + 1), [1.0] * (len(m.traps) - 1)):
                try:
                    m.n_traps_per_pixel = wrong
                    fail(0, f"{len(wrong)} densities for {len(m.traps)} species", "refused", "accepted")
                except ValueError:
                    pass
    fill = [ccd.well_filling_function(phase=p) for p in range(n_ph)]
    caps = [sum(real(t["dens"]) for t in g["traps"]) for g in setup["groups"]]
    n = 0
    seen = []
    for i, st in enumerate(states[1:], 1):
        ev = st["event"]
        op, ph, g = ev["op"], ev["ph"], ev["g"]
        n += 1
        if op == "transfer":
            kind = kinds[g]
            m = atm[ph][g]
            x = real(ev["n"])
            before = float(m.n_trapped_electrons_from_watermarks(m.watermarks))
            if kind != "slow" and i % 3 == 0:
                # the two halves, which traps that capture instantly have one after the other
                out = float(m.n_electrons_released(dwell_time=real(ev["dt"])))
                if not -tol(kind, caps[g]) <= out <= before + tol(kind, caps[g]):
                    fail(i, "electrons released are not between none and those in the traps", before, out)
                net = out - float(m.n_electrons_captured(
                    n_free_electrons=x + out, ccd_filling_function=fill[ph], dwell_time=real(ev["dt"])))
            else:
                net = float(m.n_electrons_released_and_captured(
                    n_free_electrons=x, dwell_time=real(ev["dt"]), ccd_filling_function=fill[ph]))
            held = float(m.n_trapped_electrons_from_watermarks(m.watermarks))
            seen.append((round(x, 6), round(net, 6)))
            t = tol(kind, caps[g])
            want = real(ev["net"])
            # directly on the real outcome: exchange, no overdraft, capacity
            if not abs((before - held) - net) <= t:
                fail(i, "charge leaving the traps differs from charge handed back", before - held, net)
            if x >= 0 and not x + net >= -t:
                fail(i, "more electrons captured than the packet contained", x, net)
            if not -t <= held <= caps[g] * max(setup_frac(setup, ph), 0) + t:
                fail(i, "trapped electrons outside 0..number of traps", caps[g], held)
            if not abs(net - want) <= t:
                fail(i, "net electrons released and captured", want, net)
            if not abs(held - real(ev["held"])) <= t:
                fail(i, "electrons in the traps", real(ev["held"]), held)
        elif op == "save":
            atm.save()
        elif op == "restore":
            atm.restore()
        elif op == "empty":
            atm.empty_all_traps()
        total = float(atm.n_electrons_trapped_currently)
        if not abs(total - real(ev["total"])) <= tol("cont" if "cont" in kinds else "", sum(caps) * n_ph):
            fail(i, "total electrons in the traps after " + op, real(ev["total"]), total)
        # the profile of every manager
        for p in range(n_ph):
            for k, kind in enumerate(kinds):
                m = atm[p][k]
                if not hasattr(m, "watermarks"):
                    continue
                ns = len(m.traps)
                levels = fills_of(m, m.watermarks)
                bad_fill = [f for _, fs in levels for f in fs if not -1e-9 <= f <= 1 + 1e-9]
                if bad_fill or sum(v for v, _ in levels) > 1 + 1e-9:
                    fail(i, "occupancy outside 0..1 or above the pixel", "0..1", str(levels))
                if kind == "cont":
                    want_levels = [(real(l["v"]), [
                        0.0 if y == -1 else float(m.traps[j].fill_fraction_from_time_elapsed(real(y)))
                        for j, y in enumerate(l["f"])]) for l in st["cur"][p][k]]
                else:
                    want_levels = spec_levels(st["cur"][p][k], lambda j, y: real(y))
                d = profile_distance(levels, want_levels, ns)
                if not d <= (2e-6 if kind == "cont" else TOL):
                    fail(i, "occupancy profile", str(want_levels), str(levels))
        if bad:
            break
    key = (tuple(kinds), tuple(seen[:6]))
    nontrivial = len({s for s in seen if s[1] != 0}) > 2
    return n, repr(key), nontrivial, bad


def setup_frac(setup, ph):
    return real(setup["ccd"]["frac"][ph])
