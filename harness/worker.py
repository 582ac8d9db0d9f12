"""Runs one replay module over the traces of one shard, in its own process (so
that a crash of the code under test is contained).  Writes a JSON report."""
import importlib
import json
import os
import sys
import traceback
import warnings

warnings.simplefilter("ignore")


def main():
    module, out, ctx, *files = sys.argv[1:]
    ctx = json.loads(ctx)
    from common import read_itf

    mod = importlib.import_module(module)
    rep = {"cases": 0, "evaluations": 0, "keys": [], "nontrivial": 0, "bad": [], "samples": [], "known": [],
           "states": 0}
    seen = set()
    ctx["records"] = []
    for f in files or ["(program)"]:
        states, digest = read_itf(f) if files else ([], f)
        if digest in seen:
            continue
        seen.add(digest)
        with open(out + ".cur", "w") as h:
            h.write(f)
        n_done = len(rep["bad"])
        it = iter(mod.replay(states, ctx) if files else mod.record(ctx))
        while True:
            try:
                n, key, nontrivial, bad = next(it)
            except StopIteration:
                break
            except Exception as e:
                n, key, nontrivial = 1, f + str(n_done), True
                bad = [{"what": "the code raised " + repr(e), "trace": traceback.format_exc()[-2500:]}]
                it = iter(())
            rep["cases"] += 1
            rep["evaluations"] += n
            if nontrivial:
                rep["nontrivial"] += 1
                rep["keys"].append(key)
            if len(rep["samples"]) < 2:
                rep["samples"].append(key[:1500])
            for x in bad:
                if x.get("known"):
                    rep["known"].append(x)
                else:
                    rep["bad"].append(dict(x, itf=f))
        rep["states"] += len(states)
        if len(rep["bad"]) > 20:
            break
    rep["records"] = ctx["records"]
    with open(out, "w") as h:
        # (numbers for the specification keep every digit)
        json.dump(rep, h, default=lambda o: {"#q": o.x.hex()} if type(o).__name__ == "Q" else str(o))


main()
