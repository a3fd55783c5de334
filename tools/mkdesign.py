#!/usr/bin/env python3
"""DESIGN.md from its head, the registry and its tail."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/sa", V + "/tools"]
import registry
P = {(q := json.loads(l))["id"]: q for l in open(V + "/properties.jsonl")}
M = json.load(open(V + "/MANIFEST.json"))
out = open(V + "/tools/design_head.md").read()
for k in sorted(registry.REG):
    v = registry.REG[k]
    out += f"### {k} {P[k]['title']}\n\n"
    rules = ", ".join(f"`{n}` ({f.__module__}.{f.__name__})" for n, f in v["rules"])
    out += f"Rules: {rules}.\n\n{v['explain']}\n\n"
    if v.get("assume"):
        out += f"Assumes: {v['assume']}\n\n"
tail = open(V + "/tools/design_tail.md").read()
na = "\n".join(f"- **{x['property']}** {P[x['property']]['title'] if x['property'] in P else ''}: {x['reason']}" for x in M.get("not_applicable", [])) or "(none)"
bugs = "| bug | property | caught by | needs |\n|---|---|---|---|\n"
res = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    bugs += f"| {i} | {m['property']} | {', '.join(res.get(i, [])) or '-'} | {m['needs']} |\n"
out += tail.replace("@NA@", na).replace("@BUGS@", bugs)
open(V + "/DESIGN.md", "w").write(out)
