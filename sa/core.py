"""Check runner plumbing: configurations, obligations, violations, findings,
evidence."""
import resource, signal, json
import os
import shutil
import sys
import time
import traceback

import extract
from gvf import Prog, Imprecise, MissingAnchor

VERIF = extract.VERIF


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.progs = {}
        self.paths = {}
        self.dir = None
        self.viol = []
        self.obs = []          # (rule, instance, verdict)
        self.analysed = set()
        self.notes = []
        self.counts = {}
        self.samples = []

    def load(self, configs):
        self.dir, self.paths = extract.extract(configs)

    def prog(self, c="rel"):
        if c not in self.progs:
            self.progs[c] = Prog(self.paths[c])
            self.progs[c].wraps = c not in ("ovf", "dbg")
        return self.progs[c]

    def violation(self, rule, key, msg, where=None):
        """key: stable identity (no line numbers)."""
        self.viol.append({"rule": rule, "key": f"{rule}:{key}", "msg": msg, "where": where or ""})

    def ob(self, rule, inst, ok=True):
        self.obs.append((rule, inst, bool(ok)))

    def check(self, ok, rule, inst, msg, where=None):
        self.ob(rule, inst, ok)
        if not ok:
            self.violation(rule, inst, msg() if callable(msg) else msg, where)
        return ok

    def floor(self, name, n, least):
        self.counts[name] = n
        if n < least:
            self.violation("floor", name, f"only {n} instances of '{name}' were found, at least {least} were confirmed by hand: the rule no longer sees what it is about")

    def guard(self, name, fn, *a):
        """Run one rule; a rule that cannot decide counts as not established."""
        try:
            fn(self, *a)
        except MissingAnchor as x:
            self.ob(name, "anchor", False)
            self.violation(name, f"anchor:{x}", f"{name}: the construct this rule is anchored in is missing: {x}")
        except (Imprecise, RecursionError, MemoryError, TimeoutError) as x:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            self.ob(name, "imprecise", False)
            self.violation(name, f"undecided:{str(x)[:80]}", f"{name}: the analysis could not establish the rule on this code: {str(x)[:300]}")
        except (KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError) as x:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.ob(name, "shape", False)
            self.violation(name, f"shape:{type(x).__name__}", f"{name}: the code no longer has the shape the rule understands ({type(x).__name__}: {str(x)[:200]} at {os.path.basename(tb.filename)}:{tb.name})")


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main(registry):
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

    def late(*a):
        raise TimeoutError("the analysis took too long")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(600)
    t0 = time.time()
    spec = registry[prop]
    c = Ctx(prop, tier)
    code = 2
    try:
        cfgs = spec["configs"] if tier == "quick" else spec.get("thorough_configs", spec["configs"])
        c.load(cfgs)
        for name, fn in spec["rules"]:
            if tier == "quick" and name in spec.get("thorough_only", ()):
                continue
            c.guard(name, fn)
        code = report(c, spec, t0)
    except extract.ExtractError as x:
        print("ERROR: " + str(x))
        code = 2
    finally:
        if c.dir and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.dir, ignore_errors=True)
    sys.exit(code)


def report(c, spec, t0):
    kn = {f["key"]: f for f in known() if f["property"] == c.prop and f.get("status") == "known"}
    new = []
    for v in c.viol:
        if v["key"] in kn:
            print(f"KNOWN-FINDING: property={c.prop} {kn[v['key']]['what']}")
        else:
            new.append(v)
    rules = {}
    for r, i, ok in c.obs:
        d = rules.setdefault(r, {"obligations": 0, "discharged": 0, "instances": []})
        d["obligations"] += 1
        d["discharged"] += ok
        if len(d["instances"]) < 40:
            d["instances"].append(i)
    ev = {
        "property": c.prop, "tier": c.tier, "seed": c.seed, "level": spec.get("level", "other"),
        "coverage": {
            "explanation": spec["explain"],
            "configurations": list(c.paths),
            "functions_analysed": len(c.analysed),
            "functions": sorted(c.analysed)[:120],
            "obligations": len(c.obs),
            "discharged": sum(1 for o in c.obs if o[2]),
            "rules": rules,
            "counts": c.counts,
            "notes": c.notes[:40],
            "samples": c.samples[:20],
            "known_findings": [v["key"] for v in c.viol if v["key"] in kn],
            "violations": [v["key"] for v in new],
            "trusted_base": ["rustc's MIR (nightly, opt-level 0) of the crate's current sources", "the library models of sa/models.py", "the analysis engine sa/gvf.py"],
        },
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", c.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not c.obs and not new:
        print("ERROR: nothing was checked")
        return 2
    if new:
        rp = os.path.join(VERIF, "evidence", c.prop + ".violations.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write(f"[{v['rule']}] {v['key']}\n  {v['msg']}\n  at {v['where']}\n\n")
        for v in new[:12]:
            print(f"{v['rule']}: {v['msg'][:1200]}" + (f"  [{v['where']}]" if v["where"] else ""))
        print(f"VIOLATION property={c.prop} replay={rp}")
        return 1
    print(f"OK property={c.prop} obligations={len(c.obs)} functions={len(c.analysed)} wall={time.time()-t0:.1f}s")
    return 0
