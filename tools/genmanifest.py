#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/specs/*.py (claimed) and properties.jsonl."""
import importlib.util, json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
fn = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(fn):
    NA = json.load(open(fn))
checks, na = [], []
import sys
sys.path.insert(0, os.path.join(V, "lib"))
for p in props:
    f = os.path.join(V, "checks", "specs", p["id"] + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check built yet: the technique applies, the harness for this property has not been written")))
        continue
    spec = importlib.util.spec_from_file_location(p["id"], f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    checks.append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick python3 checks/run.py " + p["id"],
                       thorough_cmd="VERIF_TIER=thorough python3 checks/run.py " + p["id"],
                       technique=getattr(m, "TECHNIQUE", "runtime monitoring: randomized workload on the real code under ASan+UBSan+LSan, compared online with a reference model"),
                       level="exploration",
                       level_note=getattr(m, "LEVEL_NOTE", "Held on every execution explored; absence of violations outside the explored executions is not proved. Trusts the harness oracle, clang's sanitizer runtimes and the builder.")))
hooks = json.load(open(os.path.join(V, "tools", "hooks.json"))) if os.path.exists(os.path.join(V, "tools", "hooks.json")) else dict(guard="MSTDLIB_VERIF", enable="lib/mbuild.py compiles every /repo source with -DMSTDLIB_VERIF", source_commits=[])
json.dump(dict(version=1, setup_cmd="sh tools/setup.sh", hooks=hooks, checks=checks, not_applicable=na,
               notes="One runner (checks/run.py) drives all checks; see DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
