"""Replays the m_cti machine: the same image through add_cti() / remove_cti()."""
import json
import os
import numpy as np
import arcticpy as ac
from adapter import *

TOL = 2e-8
STATS = os.environ.get("STATS")     # (for setting tolerances) append the differences to this file


def spec_image(img):
    return np.array([[real(x) for x in row] for row in img], dtype=float)


def has_cont(args):
    return any(g["kind"] == "cont" for s in ("par", "ser") if args[s]["on"] for g in args[s]["groups"])


def run(args, img, iterations=0, kw=None):
    if kw is None:
        kw = cti_kwargs(args, *img.shape)
    if iterations:
        return np.asarray(ac.remove_cti(image=img, iterations=iterations, **kw))
    return np.asarray(ac.add_cti(image=img, **kw))


def describe(case):
    a = case["args"]
    d = {}
    for s in ("par", "ser"):
        if a[s]["on"]:
            x = a[s]
            d[s] = {k: x[k] for k in ("mode", "isInt", "first", "between", "force", "nTransfers", "nPumps", "express", "offset", "win")}
            d[s]["phases"] = len(x["ccd"]["frac"])
            d[s]["groups"] = [(g["kind"], len(g["traps"])) for g in x["groups"]]
            d[s]["dwell"] = reals(x["dwell"])
        d[s + "_win"] = a[s]["win"]
    d["tw"] = a["tw"]
    d["iterations"] = case["iterations"]
    d["image"] = [[round(real(x), 3) for x in r] for r in case["img"]]
    return d


def tolerance(args, img, dry):
    t = TOL * (1 + 1e-3 * np.max(np.abs(img)))
    t *= 3000 if has_cont(args) else 100 if dry else 1
    if dry:
        # What floating point leaves of a packet that was used up fills some of the pixel
        left = 2e-12 * (1 + 1e-3 * np.max(np.abs(img)))
        for s in ("par", "ser"):
            if args[s]["on"]:
                vol = max((left / real(w["fwd"])) ** real(w["pow"]) if w["notch"] == 0 else 0 for w in args[s]["ccd"]["well"])
                t += 3 * vol * sum(real(tr["dens"]) for g in args[s]["groups"] for tr in g["traps"])
    return t


def worst(a, b, rows=None, cols=None):
    if a.shape != b.shape:
        return float("inf")
    d = np.abs(a - b)
    if rows is not None:
        d = d[rows]
    if cols is not None:
        d = d[:, cols]
    if d.size == 0:
        return 0.0
    return float(np.max(d)) if np.all(np.isfinite(d)) else float("inf")


def replay(states, ctx):
    session = Session() if ctx["property"] == "C17" else Frames() if ctx["property"] == "C26" else None
    for st in states:
        if st["stage"] == "done":
            yield replay_case(st["case"], st["out"], st["twinOut"], st["dry"], ctx, session)


def replay_case(case, out, twin_out, dry, ctx, session):
    bad = []
    d = describe(case)
    args, its = case["args"], case["iterations"]
    img = spec_image(case["img"])
    want = spec_image(out)
    tol = tolerance(args, img, dry)
    n = 1
    if session:
        got = session.use(args, img, its, bad, d, case)
    else:
        got = run(args, img, its, cti_kwargs(args, *img.shape, form_of(case)))
    w = worst(got, want)
    if STATS:
        with open(STATS, "a") as f:
            f.write(f"{ctx['property']} {w} {tol} {int(dry)}\n")
    if not w <= tol:
        known = known_difference(case, twin_out, got, tol)
        bad.append(dict({"what": "pixel values of the output image", "worst": w, "case": d,
                         "spec": want.tolist(), "code": got.tolist()}, **({"known": known} if known else {})))
    if ctx["property"] == "C18":
        other_images(args, img, its, got, tol, bad, d, case)
    if not its and np.min(img) >= 0 and np.min(got) < -1e-9:
        bad.append({"what": "a pixel became negative", "case": d, "code": got.tolist()})
    if not its and plain(args) and np.min(img) >= 0 and np.sum(got) > np.sum(img) + tol:
        bad.append({"what": "more electrons after readout than before", "case": d, "spec": np.sum(img), "code": np.sum(got)})
    if not bad and case["twin"]["claim"] not in ("", "asis"):
        n += 1
        twin(case, img, got, tol, bad, d, twin_out)
    nontrivial = bool(np.max(np.abs(want - img)) > 1e-3)
    return n, repr(d), nontrivial, bad


def other_images(args, img, its, got, tol, bad, d, case):
    """Removal with nothing to do, and from images of whole numbers as large as their types can hold."""
    kw = cti_kwargs(args, *img.shape, form_of(case))
    kept = img.copy()
    none = np.asarray(ac.remove_cti(image=img, iterations=0, **kw))
    if not np.array_equal(none, kept) or none is img or np.shares_memory(none, img):
        bad.append({"what": "no iterations do not give a copy of the image", "case": d, "spec": kept.tolist(), "code": none.tolist()})
    if np.all(img == np.round(img)) and np.min(img) >= 0 and np.max(img) > 0:
        for dtype in (np.uint16, np.int16):
            k = int(np.iinfo(dtype).max // np.max(img))
            big = (k * img).astype(dtype)
            scaled = json.loads(json.dumps(args))
            for side in ("par", "ser"):
                for g in scaled[side]["groups"]:
                    for t in g["traps"]:
                        t["dens"] *= k
                for w in scaled[side]["ccd"]["well"]:
                    w["fwd"], w["notch"] = k * w["fwd"], k * w["notch"]
            w = worst(run(scaled, big, its), k * got)
            if not w <= 3 * k * tol:
                bad.append({"what": f"removal from an image of {dtype.__name__}, {k} times as bright, with {k} times as many traps",
                            "worst": w, "case": d})


def plain(a):
    p = a["par"]
    if not p["on"] or a["ser"]["on"] or p["mode"] != "imaging" or not p["first"] or not p["between"] or a["tw"]["span"]:
        return False
    total = max(p["win"]) + 1 + p["offset"]
    return p["express"] == 0 or p["express"] >= total


def twin(case, img, got, tol, bad, d, twin_out):
    """What the specification says another use must give, given this one: judged on the code's own results."""
    t = case["twin"]
    claim, at = t["claim"], t["at"]
    img2 = got if claim == "sequel" else spec_image(t["img"])
    got2 = run(t["args"], img2)
    n_rows, n_cols = got.shape
    rows = cols = None
    ref = got
    if claim == "transposed":
        ref = got.T
    elif claim == "nearer":
        rows = list(range(at))
    elif claim == "others":
        cols = [c for c in range(n_cols) if c != at]
    elif claim == "scaled":
        ref = at * got
    elif claim == "sequel":
        ref = run(t["whole"], img)
    w = worst(got2, ref, rows, cols)
    if not w <= tol * 3:
        bad.append({"what": "a second use is not related to the first as it should be: " + claim, "worst": w, "case": d,
                    "at": at, "spec": ref.tolist(), "code": got2.tolist()})
    w = worst(got2, spec_image(twin_out))
    if not w <= tol * 3:
        bad.append({"what": "pixel values of the output image of the second use: " + claim, "worst": w, "case": d,
                    "spec": reals(twin_out), "code": got2.tolist()})
    if claim == "equal" and case["args"]["par"]["on"]:
        # the ways of writing the same list of species
        groups = case["args"]["par"]["groups"]
        kw = cti_kwargs(case["args"], *img.shape)
        traps = kw["parallel_traps"]
        if len(traps) == 1:
            forms = [traps[0]] + ([traps[0][0]] if len(traps[0]) == 1 else [])
            for form in forms:
                w = worst(run(None, img, 0, dict(kw, parallel_traps=form)), got)
                if not w <= tol:
                    bad.append({"what": "a plain list of traps differs from the nested one", "worst": w, "case": d})
        if len(case["args"]["par"]["ccd"]["frac"]) == 1:
            k2 = dict(kw)
            c = case["args"]["par"]["ccd"]
            k2["parallel_ccd"] = ac.CCD(
                fraction_of_traps_per_phase=real(c["frac"][0]), full_well_depth=real(c["well"][0]["fwd"]),
                well_notch_depth=real(c["well"][0]["notch"]), well_fill_power=real(c["well"][0]["pow"]))
            w = worst(run(None, img, 0, k2), got)
            if not w <= tol:
                bad.append({"what": "a CCD of one phase given by numbers differs from lists", "worst": w, "case": d})
        assert groups


def known_difference(case, twin_out, got, tol):
    """The result is exactly what the one listed defect gives (see known_findings.json)."""
    if case["twin"]["claim"] == "asis" and not case["iterations"] and worst(got, spec_image(twin_out)) <= tol:
        return "injection-more-transfers-than-rows"
    return None


def laid_out(img, how):
    """The image, in one of the ways and types in which images are kept in memory (if it can hold these values)."""
    types = [None, int, None, np.float32, None, np.int32, None, np.uint16, ">f8", None, np.int16, ">f4"]
    dtype = types[how % len(types)]
    if dtype is not None:
        with np.errstate(invalid="ignore"):
            image = img.astype(dtype)
        return image if np.array_equal(image.astype(float), img) else img.copy()
    how = how % 5
    if how == 1:
        return np.asfortranarray(img)
    if how == 2:
        big = np.full((2 * img.shape[0], 3 * img.shape[1]), 7.0)
        big[::2, ::3] = img
        return big[::2, ::3]
    if how == 3:
        return img[::-1].copy()[::-1]
    image = img.copy()
    if how == 4:
        image.setflags(write=False)
    return image


class Session:
    """One user's objects, used again and again (C17)."""

    def __init__(self):
        self.objects = {}
        self.count = 0

    def cached(self, kind, spec, make):
        key = kind + repr(spec)
        if key not in self.objects:
            self.objects[key] = make(spec)
        return self.objects[key]

    def changed(self, kind, spec, make, key, change):
        """A live object whose settings the user changes to what is needed now."""
        key = "changing " + kind + repr(key)
        if key not in self.objects:
            self.objects[key] = make(spec)
        else:
            change(self.objects[key], spec)
        return self.objects[key]

    def use(self, args, img, its, bad, d, case):
        self.count += 1
        kw = cti_kwargs(args, *img.shape, form_of(case) & (INDEX | RANGE | OMIT))
        changing = form_of(case) & DEFAULTS
        for side, name in (("par", "parallel"), ("ser", "serial")):
            x = args[side]
            if x["on"]:
                roe = {k: x[k] for k in ("mode", "isInt", "first", "between", "force", "dwell", "nTransfers", "nPumps")}
                if changing:
                    n = len(x["dwell"])
                    kw[name + "_ccd"] = self.changed("ccd", x["ccd"], make_ccd, (side, n), change_ccd)
                    kw[name + "_roe"] = self.changed("roe", roe, make_roe, (side, n, x["mode"], x["force"]), change_roe)
                    like = [(g["kind"], [{k: y for k, y in t.items() if k != "dens"} for t in g["traps"]]) for g in x["groups"]]
                    kw[name + "_traps"] = self.changed("traps", x["groups"], make_groups, (side, like), change_groups)
                else:
                    kw[name + "_ccd"] = self.cached("ccd", x["ccd"], make_ccd)
                    kw[name + "_roe"] = self.cached("roe", roe, make_roe)
                    kw[name + "_traps"] = self.cached("traps", x["groups"], make_groups)
        before = {k: state_of(o) for k, o in self.objects.items()}
        image = laid_out(img, self.count)
        kept = np.array(image)
        got = run(None, image, its, kw)
        if not np.array_equal(kept, np.array(image)) or kept.dtype != image.dtype:
            bad.append({"what": "the input image was modified", "case": d, "spec": kept.tolist(), "code": np.array(image).tolist()})
        if image.flags.writeable and got.size:
            # the result is the caller's own
            again = got.copy()
            image[...] = 0
            if not np.array_equal(got, again):
                bad.append({"what": "the output image shares memory with the input image", "case": d})
            image[...] = kept
        twice = run(None, image, its, kw)
        if not np.array_equal(got, twice):
            bad.append({"what": "a second identical call gives a different result", "case": d,
                        "spec": got.tolist(), "code": twice.tolist()})
        after = {k: state_of(o) for k, o in self.objects.items()}
        for k in before:
            if before[k] != after[k]:
                bad.append({"what": "a call changed an object it was given", "object": k[:300], "spec": before[k], "code": after[k], "case": d})
        return got


def change_ccd(o, c):
    o.fraction_of_traps_per_phase = reals(c["frac"])
    for name, k in (("full_well_depth", "fwd"), ("well_notch_depth", "notch"), ("well_fill_power", "pow")):
        setattr(o, name, [real(w[k]) for w in c["well"]])


def change_roe(o, d):
    o.dwell_times = reals(d["dwell"])
    o.express_matrix_dtype = int if d["isInt"] else float
    o.empty_traps_between_columns = d["between"]
    if d["mode"] == "injection":
        o.n_pixel_transfers = d["nTransfers"] or None
    else:
        o.empty_traps_for_first_transfers = d["first"]


def change_groups(o, groups):
    for traps, g in zip(o, groups):
        for trap, t in zip(traps, g["traps"]):
            trap.density = real(t["dens"])


def state_of(o):
    if isinstance(o, ac.CCD):
        return repr((o.n_phases, o.fraction_of_traps_per_phase, o.full_well_depth, o.well_notch_depth, o.well_fill_power))
    if isinstance(o, list):
        return repr([[(t.density, t.release_timescale, t.capture_timescale) for t in g] for g in o])
    return repr((o.dwell_times, o.n_steps, o.n_phases, o.empty_traps_between_columns,
                 getattr(o, "empty_traps_for_first_transfers", None), getattr(o, "n_pixel_transfers", None),
                 o.express_matrix_dtype, list(o.pixels_accessed_during_clocking)))


class Frames:
    """Images that know their mask, their corner, their scans and how they were exposed (C26)."""

    def __init__(self):
        self.count = 0

    def use(self, args, img, its, bad, d, case):
        from autoarray.structures import frames
        from autoarray.structures.frames import abstract_frame
        from autoarray.instruments import acs
        from autoarray.mask import mask as msk

        self.count += 1
        cls = (frames.Frame, acs.FrameACS)[self.count % 2]
        corner = ((0, 0), (1, 0), (0, 1), (1, 1))[self.count % 4]
        info = {"exposure": self.count}
        if case["mask"]:
            mask = msk.Mask.manual(np.array(case["mask"], dtype=bool), pixel_scales=(0.1, 0.1))
        else:
            mask = msk.Mask.unmasked(shape_2d=img.shape, pixel_scales=(0.1, 0.1))
        scans = abstract_frame.Scans(parallel_overscan=(0, 1, 0, 1), serial_prescan=None, serial_overscan=(0, img.shape[0], 0, 1))
        f = cls(array=img.copy(), mask=mask, original_roe_corner=corner, scans=scans, exposure_info=info)
        kept, kept_mask = np.array(f), np.array(mask)
        kw = cti_kwargs(args, *img.shape, form_of(case))
        if its:
            got = ac.remove_cti(image=f, iterations=its, **kw)
        else:
            got = ac.add_cti(image=f, **kw)
        if type(got) is not cls:
            bad.append({"what": "the class of the output image", "spec": str(cls), "code": str(type(got)), "case": d})
            return np.asarray(got)
        for name, want in (("mask", kept_mask), ("original_roe_corner", corner), ("exposure_info", info)):
            x = getattr(got, name)
            if not (np.array_equal(np.asarray(x), want) if name == "mask" else x == want):
                bad.append({"what": "the output image's " + name, "spec": str(want), "code": str(x), "case": d})
        for name in ("parallel_overscan", "serial_prescan", "serial_overscan"):
            a, b = getattr(got.scans, name), getattr(scans, name)
            if (a is None) != (b is None) or (a is not None and tuple(a) != tuple(b)):
                bad.append({"what": "the output image's scans: " + name, "spec": str(b), "code": str(a), "case": d})
        if not np.array_equal(kept, np.array(f)) or not np.array_equal(kept_mask, np.array(f.mask)):
            bad.append({"what": "the input image was modified", "case": d, "spec": kept.tolist(), "code": np.array(f).tolist()})
        return np.asarray(got)
