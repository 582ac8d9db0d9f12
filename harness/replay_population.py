"""Asks the code for the populations of the m_population machine; what it draws is judged by `follow` there."""
import copy
import numpy as np
import arcticpy as ac
from adapter import *


def as_trap(t):
    cont = isinstance(t, ac.TrapLifetimeContinuumAbstract)
    if cont:
        return {"dens": Q(t.density), "rel": Q(t.release_timescale_mu), "cap": 0, "sig": Q(t.release_timescale_sigma)}
    return {"dens": Q(t.density), "rel": Q(t.release_timescale), "cap": Q(t.capture_timescale), "sig": 0}


class Q:
    """A real number for the specification."""

    def __init__(self, x):
        self.x = float(x)


def replay(states, ctx):
    for st in states:
        s = st["survey"]
        bad = []
        traps = [make_trap(t, s["kind"]) for t in s["species"]]
        # (attributes that the specification knows nothing about)
        for i, t in enumerate(traps):
            t.note = "species %d" % i
        asked = list(zip(traps, st["ellipticity"]))
        if s["kind"] == "cont":
            # a continuum counts with its median lifetime
            asked += [(ac.TrapInstantCapture(density=t.density, release_timescale=t.release_timescale_mu), want)
                      for t, want in asked]
        for t, want in asked:
            got = float(t.delta_ellipticity)
            if not abs(got - real(want)) <= 1e-12 * (1 + abs(t.density)):
                bad.append({"what": "change of ellipticity", "spec": real(want), "code": got,
                            "density": t.density, "release_timescale": t.release_timescale})
        if s["kind"] != "cont":
            # several species together distort as much as the sum of them
            cls = ac.TrapManagerInstantCapture if all(type(t) is ac.TrapInstantCapture for t in traps) else ac.TrapManager
            got = float(cls(traps=traps, max_n_transfers=3).delta_ellipticity)
            want = sum(real(w) for w in st["ellipticity"])
            if not abs(got - want) <= 1e-12 * (1 + sum(abs(t.density) for t in traps)):
                bad.append({"what": "change of ellipticity of a group of species", "spec": want, "code": got})
        shape = (s["rows"], s["cols"])
        cls = (ac.Trap, ac.TrapInstantCapture)[s["seed"] % 2]
        before = [as_trap(t) for t in traps]
        drawn = cls.poisson_trap(trap=traps, shape=shape, seed=s["seed"])
        np.random.seed(17)
        np.random.random(3)
        again = cls.poisson_trap(trap=traps, shape=shape, **({"seed": s["seed"]} if s["seed"] else {}))
        if [type(t) for t in drawn] != [type(traps[j % len(traps)]) for j in range(len(drawn))]:
            bad.append({"what": "a drawn species is of another class"})
        elif any(getattr(t, "note", "") != "species %d" % (j % len(traps)) for j, t in enumerate(drawn)):
            bad.append({"what": "a drawn species lost an attribute"})
        elif any(t is u for t in drawn for u in traps):
            bad.append({"what": "a drawn species is the one that was given"})
        else:
            # a drawn species behaves as one that was made with that density
            for j in (0, len(drawn) - 1):
                t, u = drawn[j], traps[j % len(traps)]
                if t.fill_fraction_from_time_elapsed(0.7) != u.fill_fraction_from_time_elapsed(0.7):
                    bad.append({"what": "a drawn species has other kinetics"})
        # the inputs, exactly as the specification knows them
        conv = [dict(t, dens=(real(w["dens"]), w["dens"]), rel=(real(w["rel"]), w["rel"]), cap=(real(w["cap"]), w["cap"]),
                     sig=(real(w["sig"]), w["sig"])) for t, w in zip(before, s["species"])]

        def exact(t, j, dens=True):
            # numbers that are those of the input keep its exact value
            c = conv[j % len(conv)]
            d = as_trap(t)
            out = {}
            for k in ("dens", "rel", "cap", "sig"):
                x = d[k].x if isinstance(d[k], Q) else float(d[k])
                f, q = c[k]
                out[k] = q if (x == f and (k != "dens" or dens)) else Q(x)
            return out

        variants = []
        for i in range(len(traps)):
            vs = {repr(sorted((k, getattr(x, "x", x)) for k, x in exact(t, i, False).items() if k != "dens")): t for t in drawn[i::len(traps)]}
            variants.append([dict(exact(t, i), dens=0) for t in vs.values()])
        ctx["records"].append({
            "survey": s, "drawn": [Q(t.density) for t in drawn], "variants": variants,
            "repeats": [t.density for t in again] == [t.density for t in drawn],
            "after": [exact(t, j) for j, t in enumerate(traps)]})
        yield 2, repr((s["kind"], s["rows"], s["cols"], s["seed"], reals([t["dens"] for t in s["species"]]))), True, bad
