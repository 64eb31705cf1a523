"""Writes MANIFEST.json from checks_registry and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from checks_registry import PROPS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
         notes="TLA+ specifications in spec/, drivers in harness/, orchestrated by check.py; see DESIGN.md. No hooks in /repo.")
for p in props:
    i = p["id"]
    if i in PROPS:
        P = PROPS[i]
        m["checks"].append(dict(
            property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json", technique="TLA+ specification model-checked with TLC; TLC-generated scenarios replayed into the code and recorded traces validated by TLC",
            level="model_checking",
            level_note=P.get("note", "Exhaustive on the bounded design model; on the code, decides every recorded call of the replayed scenarios (sampled inputs), nothing beyond them. Trusts the driver's projection of results to integers and TLC.")))
    else:
        m["not_applicable"].append(dict(property=i, reason="no check registered yet"))
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
