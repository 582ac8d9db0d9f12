"""Writes /verif/MANIFEST.json from the registry and the properties."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPERTIES

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = "Quint specification, simulated with its invariants checked; every simulated behaviour replayed on the real code"
NOTES = {
    "C01": "also histories recorded from the real code, judged step by step by the specification (trace validation)",
    "C08": "every schedule of up to 6 rows enumerated (exhaustive in that grid), larger ones sampled",
    "C11": "every clock sequence of up to 12 phases enumerated",
    "C22": "also histories recorded from the real code, judged step by step by the specification (trace validation)",
    "C25": "what the code draws is judged by the specification (trace validation); distribution by 8-sigma bounds",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks = []
for pid in ids:
    if pid not in PROPERTIES:
        continue
    note = ("The specification satisfies the property in every simulated state, and the code agrees with the specification on every "
            "simulated behaviour, within floating-point tolerance; cases are sampled from the seed, not exhausted"
            + ("; " + NOTES[pid] if pid in NOTES else "") + ". Trusts Quint's interpreter and the replay harness.")
    checks.append({
        "property": pid, "quick_cmd": f"bash check.sh {pid}", "thorough_cmd": f"bash check.sh {pid} --thorough",
        "evidence_file": f"evidence/{pid}.json", "technique": PROPERTIES[pid].get("technique", TECHNIQUE),
        "level": PROPERTIES[pid]["level"], "level_note": note})
out = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "The specification is in spec/ (Quint); harness/ builds /repo's current tree in a scratch folder, simulates the "
             "specification and replays what it did on the code. No hooks in /repo. See DESIGN.md.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
