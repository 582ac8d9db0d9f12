"""Replays the m_words machine: every short history of transfers through one trap manager."""
import copy
from adapter import *

TOL = 1e-8


def replay(states, ctx):
    pixel = states[0]["pixel"]
    mgr = pixel["mgr"]
    fill = make_ccd(pixel["ccd"]).well_filling_function(phase=0)
    cls = {"slow": ac.TrapManager, "instant": ac.TrapManagerInstantCapture}.get(mgr["kind"], ac.TrapManagerTrackTime)
    # the real manager after each transfer of the present history
    paths = [cls(traps=[make_trap(t, mgr["kind"]) for t in mgr["traps"]], max_n_transfers=pixel["announced"])]
    tol = (2e-6 if mgr["kind"] == "cont" else TOL) * (1 + sum(real(t["dens"]) for t in mgr["traps"]))
    for st in states:
        word, ev = st["word"], st["event"]
        bad = []

        def fail(what, want, got):
            bad.append({"what": what, "spec": want, "code": got, "history": word, "kind": mgr["kind"]})

        m = copy.deepcopy(paths[len(word) - 1])
        before = float(m.n_trapped_electrons_from_watermarks(m.watermarks))
        net = float(m.n_electrons_released_and_captured(
            n_free_electrons=real(ev["n"]), dwell_time=real(ev["dt"]), ccd_filling_function=fill))
        held = float(m.n_trapped_electrons_from_watermarks(m.watermarks))
        if not abs(net - real(ev["net"])) <= tol:
            fail("net electrons released and captured", real(ev["net"]), net)
        if not abs(held - real(ev["held"])) <= tol:
            fail("electrons in the traps", real(ev["held"]), held)
        if not abs((before - held) - net) <= tol:
            fail("charge leaving the traps differs from charge handed back", before - held, net)
        levels = fills_of(m, m.watermarks)
        if any(not -1e-9 <= f <= 1 + 1e-9 for _, fs in levels for f in fs) or sum(v for v, _ in levels) > 1 + 1e-9:
            fail("occupancy outside 0..1 or above the pixel", "0..1", str(levels))
        profile = st["path"][len(word)]
        if mgr["kind"] == "cont":
            want = [(real(l["v"]), [0.0 if y == -1 else float(m.traps[j].fill_fraction_from_time_elapsed(real(y)))
                                    for j, y in enumerate(l["f"])]) for l in profile]
        else:
            want = spec_levels(profile, lambda j, y: real(y))
        if not profile_distance(levels, want, len(m.traps)) <= tol:
            fail("occupancy profile", str(want), str(levels))
        paths = paths[:len(word)] + [m]
        yield len(word), repr((mgr, pixel["ccd"], word)), abs(net) > 1e-6, bad
        if bad:
            return
