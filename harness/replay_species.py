"""Replays the m_species machine on real trap species and trap managers."""
from math import lgamma
import numpy as np
import arcticpy as ac
from adapter import *


def gamma_rates(x, beta, alpha):
    """Density of lifetimes x whose rates 1/x follow Gamma(alpha) with scale 1/beta."""
    return np.exp(alpha * np.log(beta) - lgamma(alpha) - (alpha + 1) * np.log(x) - beta / x)


KNOWN = {}


def species(x, kind):
    """The same species are the same objects, asked again and again."""
    return KNOWN.setdefault((kind,) + tuple(sorted(x.items())), make_trap(x, kind))


def defaults(a):
    """What is not said about a species has its documented value."""
    x = a["traps"][0]
    rel, cap, dens = real(x["rel"]), real(x["cap"]), real(x["dens"])
    bad = []

    def holds(what, got, want):
        if got != want:
            bad.append({"what": "default parameters: " + what, "spec": want, "code": got})

    def of(t):
        return (t.density, t.release_timescale, t.capture_timescale, bool(t.surface))

    holds("Trap()", of(ac.Trap()), (0.13, 0.25, 0, False))
    holds("TrapInstantCapture()", of(ac.TrapInstantCapture()), (0.13, 0.25, 0, False))
    holds("Trap(density)", of(ac.Trap(dens)), (dens, 0.25, 0, False))
    holds("Trap(release_timescale)", of(ac.Trap(release_timescale=rel)), (0.13, rel, 0, False))
    holds("Trap(capture_timescale)", of(ac.Trap(capture_timescale=cap)), (0.13, 0.25, cap, False))
    holds("TrapInstantCapture(release_timescale)", of(ac.TrapInstantCapture(release_timescale=rel)), (0.13, rel, 0, False))
    holds("Trap(surface)", of(ac.Trap(dens, rel, cap, True)), (dens, rel, cap, True))
    holds("TrapInstantCapture(surface)", of(ac.TrapInstantCapture(dens, rel, True)), (dens, rel, 0, True))
    return bad


def replay(states, ctx):
    for st in states:
        yield replay_ask(st["ask"], st["answer"])


def replay_ask(a, ans):
    cont = a["kind"] == "cont"
    bad = [] if cont else defaults(a)
    tol = 1e-6 if cont else 1e-9
    t, dt, dt2, n = (real(a[k]) for k in ("t", "dt", "dt2", "n"))

    def near(what, got, want, scale=1.0, tol=tol):
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape or not np.all(np.abs(g - w) <= tol * scale):
            bad.append({"what": what, "spec": w.tolist(), "code": g.tolist(), "ask": {k: v for k, v in a.items()}})

    if a["alpha"]:
        tr = a["traps"][0]
        traps = [ac.traps.TrapLifetimeContinuumAbstract(
            density=real(tr["dens"]), distribution_of_traps_with_lifetime=gamma_rates,
            release_timescale_mu=real(tr["rel"]), release_timescale_sigma=float(a["alpha"]))]
    else:
        traps = [species(x, a["kind"]) for x in a["traps"]]
    for i, trap in enumerate(traps):
        near("fraction full after a time", trap.fill_fraction_from_time_elapsed(t), real(ans["surv"][i]))
        near("electrons released in a dwell time", trap.electrons_released_from_electrons_and_dwell_time(n, dt),
             real(ans["gone"][i]), 1 + n)
        near("electrons released after a time elapsed", trap.electrons_released_from_time_elapsed_and_dwell_time(t, dt),
             real(ans["goneFrom"][i]))
        # nothing is full only after forever; everything is at once
        with np.errstate(divide="ignore"):
            ends = float(trap.time_elapsed_from_fill_fraction(0.0)), float(trap.time_elapsed_from_fill_fraction(1.0))
        if ends[0] != np.inf or not abs(ends[1]) <= tol * trap.release_timescale:
            bad.append({"what": "elapsed times from the fill fractions 0 and 1", "spec": ["inf", 0.0], "code": ends})
        if dt == 1:
            near("electrons released in the default dwell time", trap.electrons_released_from_electrons_and_dwell_time(n),
                 real(ans["gone"][i]), 1 + n)
            near("electrons released in the default dwell time, after a time elapsed",
                 trap.electrons_released_from_time_elapsed_and_dwell_time(t), real(ans["goneFrom"][i]))
        if i == 0 and a["fill"] > 0:
            el = float(trap.time_elapsed_from_fill_fraction(real(a["fill"])))
            if not a["alpha"]:
                # judged by the fraction it stands for, as flat parts amplify differences of time
                near("elapsed time from a fill fraction (the fraction then full)",
                     trap.fill_fraction_from_time_elapsed(el), real(a["fill"]))
                if a["fill"] < 10 ** 30 * 0.999 and not cont:
                    near("elapsed time from a fill fraction", el, real(ans["elapsed"]), abs(real(ans["elapsed"])))
            else:
                near("elapsed time from a fill fraction (the fraction then full)",
                     trap.fill_fraction_from_time_elapsed(el), real(a["fill"]))
    if a["kind"] == "slow":
        m = ac.TrapManager(traps=traps, max_n_transfers=3)
        e, f, r = m.fill_probabilities_from_dwell_time(dt)
        near("probability of an empty trap under the cloud becoming full", e, reals(ans["e"]))
        near("probability of a full trap under the cloud staying full", f, reals(ans["f"]))
        near("probability of a full trap above the cloud staying full", r, reals(ans["r"]))
        e2, f2, _ = m.fill_probabilities_from_dwell_time(dt2)
        ew, fw, _ = m.fill_probabilities_from_dwell_time(dt + dt2)
        slow = np.array([x["cap"] > 0 for x in a["traps"]])
        near("two dwell times in a row (full)", (f * f2 + (1 - f) * e2)[slow], fw[slow])
        near("two dwell times in a row (empty)", (e * f2 + (1 - e) * e2)[slow], ew[slow])
    nontrivial = any(0 < x < 10 ** 30 for x in ans["surv"])
    return 1, repr((a["kind"], a["alpha"], reals([x["rel"] for x in a["traps"]]), t, dt)), nontrivial, bad
