"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.registry import PROPS
from vlib.notes import NOTES

ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
BASE = "Every executed call is judged against the TLA+ specification; what is not executed is not judged. Exhaustive only for the specification itself within the stated constants. Trusted: TLC, the overrides of RealNum (java/RealNum.java), the driver's projection of replies, g++."
checks = []
for p in ids:
    if p in PROPS:
        t, n = NOTES.get(p, ("", ""))
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=t or "TLA+ specification checked by TLC; traces of the real library validated against it",
                           level="model_checking", level_note=(n + " " if n else "") + BASE))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
         not_applicable=[dict(property=p, reason="check not built yet") for p in ids if p not in PROPS],
         notes="Specification language: TLA+ (TLC). No hooks in /repo: every observation goes through the public API.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
