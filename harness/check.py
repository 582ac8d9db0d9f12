"""check.py PROPERTY: decide one property on /repo's current working tree.

Exit 0: it held on everything explored.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it does not.  2: the machinery failed.
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
import validate
from common import MachineryError
from registry import PROPERTIES

EVIDENCE = os.path.join(common.VERIF, "evidence")


def shard_seed(base, job_index, shard):
    h = hashlib.sha256(f"{base}/{job_index}/{shard}".encode()).hexdigest()
    return int(h[:12], 16)


def run_shard(job, ji, shard, seed, scratch, build_dir, ctx):
    d = os.path.join(scratch, f"j{ji}_s{shard}")
    t0 = time.time()
    if job.get("main"):
        ok, out, files = common.quint_run(
            job["main"], job["spec"], d, shard_seed(seed, ji, shard), job["samples"], job["steps"],
            job.get("invariant", "inv"))
    else:        # programs of our own, whose real histories are validated
        os.makedirs(d)
        ok, out, files = True, "", []
    ctx = dict(ctx, shard=shard)
    if not ok:
        return {"spec_error": out[-6000:], "dir": d}
    t_quint = time.time() - t0
    build_dir = build_dir.result()
    rep_file = os.path.join(d, "report.json")
    env = dict(os.environ, PYTHONPATH=build_dir + os.pathsep + os.path.dirname(os.path.abspath(__file__)),
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run(
            [sys.executable, "-X", "faulthandler", os.path.join(os.path.dirname(os.path.abspath(__file__)), "worker.py"),
             job["replay"], rep_file, json.dumps(dict(ctx, **job.get("ctx", {})))] + files,
            cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            timeout=job.get("timeout", 600))
        code, output = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        code, output = "timeout", ""
    if code != 0:
        cur = open(rep_file + ".cur").read() if os.path.exists(rep_file + ".cur") else None
        if cur is None:
            return {"spec_error": "replay worker failed to start:\n" + output[-4000:], "dir": d}
        rep = {"cases": 1, "states": 1, "evaluations": 1, "keys": [], "nontrivial": 0, "samples": [], "known": [],
               "bad": [{"what": f"the code under test ended the process ({code})", "trace": output[-3000:], "itf": cur}]}
    else:
        rep = json.load(open(rep_file))
    rep["traces"] = len(files) or rep["cases"]
    records = rep.pop("records", [])
    if job.get("judge") and records and not rep["bad"]:
        module, spec = job["judge"]
        ok, at, why, output = validate.validate(module, spec, records, d)
        if not ok and at is None:
            return {"spec_error": "trace validation failed to run:\n" + output, "dir": d}
        if not ok:
            rep["bad"].append({"what": "the specification does not accept what the code did: " + why,
                               "record": json.dumps(records[at])[:3000]})
        rep["evaluations"] += len(records)
    rep["t_quint"] = t_quint
    rep["t_replay"] = time.time() - t0 - t_quint
    return rep


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPERTIES[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"arctic_{prop}_")
    os.makedirs(EVIDENCE, exist_ok=True)
    try:
        code = decide(prop, cfg, tier, seed, scratch, t0)
    except MachineryError as e:
        print("ERROR:", e)
        code = 2
    finally:
        if os.environ.get("KEEP"):
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def decide(prop, cfg, tier, seed, scratch, t0):
    builder = ThreadPoolExecutor(max_workers=1)
    build_dir = builder.submit(common.build, scratch)
    ctx = {"property": prop, "tier": tier, "seed": seed}
    jobs = cfg["jobs"](tier)
    n_shards = {ji: j.get("shards", common.CORES) for ji, j in enumerate(jobs)}
    reports, spec_errors, design = [], [], []
    with ThreadPoolExecutor(max_workers=common.CORES) as pool:
        futs = []
        for d in cfg.get("design", lambda tier: [])(tier):
            futs.append(("design", pool.submit(d, scratch, ctx)))
        for ji, j in enumerate(jobs):
            for s in range(n_shards[ji]):
                futs.append(("shard", pool.submit(run_shard, j, ji, s, seed, scratch, build_dir, ctx)))
        for kind, f in futs:
            r = f.result()
            if kind == "design":
                design.append(r)
            elif "spec_error" in r:
                spec_errors.append(r)
            else:
                reports.append(r)
    extra = cfg.get("extra")
    if extra:
        reports.append(extra(build_dir.result(), scratch, ctx))
    for d in design:
        if not d["ok"]:
            spec_errors.append({"spec_error": d["output"]})
    if spec_errors:
        # A property violated by the specification itself, or the tools failing:
        # neither is a statement about the code.
        raise MachineryError("specification/tool failure:\n" + spec_errors[0]["spec_error"])

    keys = set()
    tot = {k: 0 for k in ("cases", "evaluations", "nontrivial", "traces")}
    bad, known, samples = [], [], []
    for r in reports:
        for k in tot:
            tot[k] += r.get(k, 0)
        keys.update(r["keys"])
        bad += r["bad"]
        known += r["known"]
        samples += r["samples"][:1]
    findings = json.load(open(os.path.join(common.VERIF, "known_findings.json")))["findings"]
    listed = {f["key"]: f for f in findings if f["property"] == prop}
    seen_known = {}
    for k in known:
        if k["known"] in listed:
            seen_known.setdefault(k["known"], k)
        else:
            bad.append(k)
    wall = time.time() - t0
    cov = {
        "evaluations": tot["evaluations"],
        "distinct_nontrivial": len(keys),
        "rule": cfg["rule"],
        "samples": samples[:4],
        "traces_validated_against_impl": tot["traces"],
        "cases": tot["cases"],
    }
    st = sum(d.get("states", 0) for d in design)
    if design:
        cov["states"] = st
        cov["transitions"] = sum(d.get("transitions", 0) for d in design)
        cov["design_checks"] = [{k: d[k] for k in d if k not in ("ok", "output")} for d in design]
    if cfg["level"] == "model_checking":
        cov.setdefault("states", 0)
        cov.setdefault("transitions", 0)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
        "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(bad),
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for key in seen_known:
        print(f"KNOWN-FINDING: property={prop} {listed[key]['what']}")
    if bad:
        path = os.path.join(EVIDENCE, f"replay-{prop}.json")
        b = bad[0]
        if b.get("itf") and os.path.exists(b["itf"]):
            itf = os.path.join(EVIDENCE, f"replay-{prop}.itf.json")
            shutil.copy(b["itf"], itf)
            b["itf"] = itf
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "disagreements": bad[:20]}, f, indent=1, default=str)
        for x in bad[:3]:
            print(json.dumps({k: str(v)[:700] for k, v in x.items()}, default=str))
        print(f"{len(bad)} disagreements in {tot['cases']} cases ({wall:.0f} s)")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if tot["cases"] == 0 or not keys:
        raise MachineryError("nothing was explored")
    print(f"OK {prop} [{tier}]: {tot['cases']} cases, {tot['evaluations']} evaluations, "
          f"{len(keys)} distinct non-trivial; quint {max(r.get("t_quint", 0) for r in reports):.0f} s, total {wall:.0f} s")
    return 0


main()
