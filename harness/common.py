"""Shared by the checks: building the code under test, running Quint, reading
its ITF traces, and reporting."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("ARCTIC_REPO", "/repo")
S = 10 ** 30
CORES = os.cpu_count() or 8


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ building --
def build(scratch):
    """Compile /repo's current tree in a scratch copy; returns its directory."""
    dst = os.path.join(scratch, "build")
    os.makedirs(dst)
    for name in ("setup.py", "README.md", "requirements.txt", "setup.cfg", "MANIFEST.in"):
        src = os.path.join(REPO, name)
        if os.path.exists(src):
            shutil.copy(src, dst)
    shutil.copytree(
        os.path.join(REPO, "arcticpy"),
        os.path.join(dst, "arcticpy"),
        ignore=shutil.ignore_patterns("*.c", "*.so", "*.html", "__pycache__"),
    )
    shutil.copytree(
        os.path.join(REPO, "test_arcticpy"),
        os.path.join(dst, "test_arcticpy"),
        ignore=shutil.ignore_patterns("__pycache__"),
    )
    env = dict(os.environ, CFLAGS="-O0 -g0", PYTHONPATH=dst)
    p = subprocess.run(
        [sys.executable, "setup.py", "-q", "build_ext", "--inplace", "-j2"],
        cwd=dst, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    ok = subprocess.run(
        [sys.executable, "-c", "import arcticpy.main_utils, arcticpy.trap_managers_utils"],
        cwd=dst, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if ok.returncode != 0:
        raise MachineryError("build failed:\n" + p.stdout[-3000:] + ok.stdout[-3000:])
    return dst


# --------------------------------------------------------------------- quint --
def quint_env():
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    return env


def quint_run(main, spec, out_dir, seed, samples, steps, invariant="inv", timeout=800, mbt=False):
    """One simulation shard.  Returns (ok, output, [itf files])."""
    os.makedirs(out_dir, exist_ok=True)
    cmd = [
        "quint", "run", "--backend", "typescript", "--main", main,
        "--seed", str(seed), "--max-samples", str(samples), "--max-steps", str(steps),
        "--n-traces", str(samples), "--out-itf", os.path.join(out_dir, "t_{seq}.itf.json"),
        "--verbosity", "1",
    ]
    if invariant:
        cmd += ["--invariant", invariant]
    if mbt:
        cmd += ["--mbt"]
    cmd.append(os.path.join(SPEC, spec))
    try:
        p = subprocess.run(cmd, cwd=out_dir, env=quint_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return False, "quint timed out", []
    files = sorted(
        (os.path.join(out_dir, f) for f in os.listdir(out_dir) if f.endswith(".itf.json")),
        key=lambda f: int(f.rsplit("_", 1)[1].split(".")[0]),
    )
    return p.returncode == 0, p.stdout, files


# ----------------------------------------------------------------------- ITF --
def itf_value(v):
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#map" in v:
            return {freeze(itf_value(k)): itf_value(x) for k, x in v["#map"]}
        if "#tup" in v:
            return tuple(itf_value(x) for x in v["#tup"])
        if "#set" in v:
            return [itf_value(x) for x in v["#set"]]
        return {k: itf_value(x) for k, x in v.items() if k != "#meta"}
    if isinstance(v, list):
        return [itf_value(x) for x in v]
    return v


def freeze(x):
    if isinstance(x, list):
        return tuple(freeze(y) for y in x)
    return x


def read_itf(path):
    """The states of a trace, and a digest of them."""
    with open(path) as f:
        d = json.load(f)
    for st in d["states"]:
        st.pop("#meta", None)
    digest = hashlib.sha256(json.dumps(d["states"], sort_keys=True).encode()).hexdigest()
    states = []
    for st in d["states"]:
        states.append({k.split("::")[-1]: itf_value(v) for k, v in st.items() if k != "#meta"})
    return states, digest


def real(x):
    """A fixed-point number of the specification as a float (correctly rounded)."""
    return float(Fraction(x, S))


def reals(x):
    if isinstance(x, (list, tuple)):
        return [reals(y) for y in x]
    return real(x)
