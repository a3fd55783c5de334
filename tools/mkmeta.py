#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py and the registry."""
import json
import os
import sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path[:0] = [H, os.path.join(V, "sa")]
import props
from registry import REG

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P:
        if p["id"] not in REG and p["id"] not in props.NA:
            continue
        d = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }
        assert len(d["title"]) <= 80, d["title"]
        assert d["statement"].count(". ") <= 2, (p["id"], d["statement"])
        f.write(json.dumps(d) + "\n")
checks = []
ids = {p["id"] for p in props.P}
for i in sorted(REG):
    assert i in ids, i
    s = REG[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 sa/check.py {i} quick",
        "thorough_cmd": f"python3 sa/check.py {i} thorough",
        "technique": s.get("technique", "guarded value-flow analysis of rustc MIR (laws over symbolic stores)"),
        "level": s.get("level", "other"),
        "level_note": s["explain"] + " Trusts rustc's MIR, the analysis engine (sa/gvf.py) and the library models (sa/models.py)." + (" Assumes: " + s["assume"] if s.get("assume") else ""),
    })
m = {"version": 1,
     "setup_cmd": "cd driver && CARGO_NET_OFFLINE=true cargo +nightly build --release --offline",
     "checks": checks,
     "not_applicable": [{"property": k, "reason": r} for k, r in sorted(props.NA.items()) if k not in REG],
     "notes": "All checks are static: a rustc driver dumps the resolved, monomorphic MIR of /repo's current sources and the rules in sa/rules decide laws over it. Known and fixed findings are in known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
