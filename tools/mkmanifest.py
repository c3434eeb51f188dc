"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        mods = sorted({m for m, _, _ in c["mc"]} | ({"TR_" + i} if c.get("n") else set()))
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification checked with TLC; its states replayed into the crate and recorded "
                         "executions of the crate judged by it (%s)" % ", ".join(mods),
            "level": "model_checking",
            "level_note": c.get("note", "TLC exhausts the bounded model (theorems plus one vector per state replayed "
                                "into the crate); seeded random executions beyond those bounds are judged by the same operators."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed: every observation goes through the public interface", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Specification language: TLA+ (TLC). See DESIGN.md; known-findings.txt lists repaired defects."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
