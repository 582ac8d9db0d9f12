"""Replays the m_ccd machine on a real CCD object."""
import numpy as np
import arcticpy as ac
from adapter import *


def replay(states, ctx):
    ccd = None
    bad = []
    last = ""
    for i, st in enumerate(states):
        c = st["call"]
        spec = st["ccd"]
        if c["op"] == "construct":
            # lists, scalars where all agree; a single number for a single phase; the defaults left out
            ccd = make_ccd(spec, form=(UNLIST if spec["frac"][0] % 2 == 0 else 0) | (DEFAULTS if spec["well"][0]["pow"] % 7 < 4 else 0),
                           bloom=reals(c["values"]))
        elif c["op"] == "misconstruct":
            kw = {"fraction_of_traps_per_phase": reals(spec["frac"]), c["name"]: reals(c["values"])}
            try:
                ac.CCD(**kw)
                bad.append({"step": i, "what": f"a CCD of {len(spec['frac'])} phases with {c['name']}={kw[c['name']]}",
                            "spec": "refused", "code": "accepted"})
            except ValueError:
                pass
        elif c["op"] == "assign":
            v = reals(c["values"])
            try:
                setattr(ccd, c["name"], v[0] if c["scalar"] else v)
                ok = True
            except ValueError:
                ok = False
            if ok != c["ok"]:
                bad.append({"step": i, "what": f"setting {c['name']} to {v} with {len(spec['frac'])} phases",
                            "spec": "accepted" if c["ok"] else "refused", "code": "accepted" if ok else "refused"})
        else:
            p, n, n2 = c["phase"], real(c["n"]), real(c["n2"])
            f = ccd.well_filling_function(phase=p)
            ph = ac.CCDPhase(ccd, p) if p else ac.CCDPhase(ccd)
            for x, want in ((n, st["volume"]), (n2, st["volume2"])):
                got = [f(x), ccd.cloud_fractional_volume_from_n_electrons_and_phase(x, p),
                       ph.cloud_fractional_volume_from_n_electrons(x)]
                if p == 0:
                    got.append(ccd.well_filling_function()(x))
                    got.append(ccd.cloud_fractional_volume_from_n_electrons_and_phase(x))
                if not np.all(np.abs(np.array(got, dtype=float) - real(want)) <= 1e-9):
                    bad.append({"step": i, "what": "fraction of phase %d filled by %g electrons" % (p, x),
                                "spec": real(want), "code": [float(g) for g in got], "ccd": str(spec)})
                last = repr((x, p))
            for y, want in st["surface"]:
                x = real(y)
                got = [f(x, True), f(x, surface=True), ccd.cloud_fractional_volume_from_n_electrons_and_phase(x, p, True),
                       ph.cloud_fractional_volume_from_n_electrons(x, surface=True)]
                if not np.all(np.abs(np.array(got, dtype=float) - real(want)) <= 1e-9):
                    bad.append({"step": i, "what": "fraction of the surface of phase %d reached by %g electrons" % (p, x),
                                "spec": real(want), "code": [float(g) for g in got], "ccd": str(spec), "bloom": reals(st["bloom"])})
            if n <= n2 and f(n) > f(n2) + 1e-12:
                bad.append({"step": i, "what": "more electrons fill less", "code": (n, f(n), n2, f(n2))})
        if st["bloom"] and [float(x) for x in np.ravel(ccd.well_bloom_level)] != reals(st["bloom"]):
            bad.append({"step": i, "what": "bloom level of the phases after " + c["op"], "spec": reals(st["bloom"]),
                        "code": str(ccd.well_bloom_level)})
        if st["bloom"] and [x.well_bloom_level for x in (ac.CCDPhase(ccd, p) for p in range(ccd.n_phases))] != reals(st["bloom"]):
            bad.append({"step": i, "what": "bloom level of the extracted phases after " + c["op"], "spec": reals(st["bloom"])})
        got = (list(ccd.fraction_of_traps_per_phase), list(ccd.full_well_depth), list(ccd.well_notch_depth),
               list(ccd.well_fill_power), ccd.n_phases)
        want = (reals(spec["frac"]), [real(w["fwd"]) for w in spec["well"]], [real(w["notch"]) for w in spec["well"]],
                [real(w["pow"]) for w in spec["well"]], len(spec["frac"]))
        if got != want:
            bad.append({"step": i, "what": "parameters of the phases after " + c["op"], "spec": want, "code": got})
        ph = [ac.CCDPhase(ccd, p) for p in range(ccd.n_phases)]
        if ([x.full_well_depth for x in ph], [x.well_notch_depth for x in ph], [x.well_fill_power for x in ph],
                [x.fraction_of_traps_per_phase for x in ph]) != (want[1], want[2], want[3], want[0]):
            bad.append({"step": i, "what": "parameters of the extracted phases", "spec": want})
        yield 1, repr((i, c["op"], last, reals(spec["frac"]), want[1])), c["op"] != "construct", bad
        if bad:
            return
