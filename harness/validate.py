"""Trace validation: what the real code did, written out as a Quint module and
judged by the specification's own `follow` relation."""
import json
import os
import subprocess
from fractions import Fraction
from common import S, SPEC, quint_env, read_itf


def lit(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return f"({v})" if v < 0 else str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, float):
        n = round(Fraction(v) * S)
        return f"({n})" if n < 0 else str(n)
    if isinstance(v, (list, tuple)):
        return "List(" + ", ".join(lit(x) for x in v) + ")"
    if isinstance(v, dict):
        if "#q" in v:
            return lit(float.fromhex(v["#q"]))
        return "{ " + ", ".join(f"{k}: {lit(x)}" for k, x in v.items()) + " }"
    raise TypeError(repr(v))


def validate(module, imports, records, out_dir, tag="trace"):
    """(ok, index of the first record that is not accepted, why, tool output)"""
    text = [f"module {tag} {{", f'  import {module}.* from "{os.path.relpath(os.path.join(SPEC, imports[:-4]), os.path.realpath(out_dir))}"']
    text.append("  pure val records: List[Record] = List(\n    " + ",\n    ".join(lit(r) for r in records) + ")")
    text.append("""  var at: int
  var st: St
  var why: str
  action init = { val f = follow(begin, records[0]) all { at' = 0, st' = f.st, why' = f.why } }
  action step = all { at < records.length() - 1, {
    val f = follow(st, records[at + 1]) all { at' = at + 1, st' = f.st, why' = f.why } } }
  val accepted = why == ""
}""")
    path = os.path.join(out_dir, tag + ".qnt")
    with open(path, "w") as f:
        f.write("\n".join(text))
    itf = os.path.join(out_dir, tag + ".itf.json")
    p = subprocess.run(
        ["quint", "run", "--backend", "typescript", "--main", tag, "--invariant", "accepted", "--max-samples", "1",
         "--n-traces", "1", "--max-steps", str(len(records)), "--out-itf", itf, "--verbosity", "1", path],
        cwd=out_dir, env=quint_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    states = read_itf(itf)[0] if os.path.exists(itf) else []
    if not states:
        return False, None, None, p.stdout[-5000:]
    last = states[-1]
    if last["why"]:
        return False, last["at"], last["why"], ""
    if p.returncode != 0 or last["at"] != len(records) - 1:
        return False, None, None, p.stdout[-5000:]
    return True, last["at"], "", ""
