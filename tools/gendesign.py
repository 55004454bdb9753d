#!/usr/bin/env python3
"""Composes DESIGN.md from tools/design_head.md, the DESIGN strings of checks/specs/*.py, tools/plan.json (properties without a check) and seeded/*/meta.json."""
import importlib.util, json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), "", "## Per property", ""]
plan = json.load(open(os.path.join(V, "tools", "plan.json")))
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    f = os.path.join(V, "checks", "specs", i + ".py")
    out.append("### %s - %s" % (i, p["title"]))
    if os.path.exists(f):
        sp = importlib.util.spec_from_file_location(i, f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        out.append(getattr(m, "DESIGN", plan.get(i, "")).strip())
    else:
        out.append("(no check yet) Plan: " + plan.get(i, ""))
    out.append("")
out += ["## Planted bugs and which checks catch them", "", "Each was confirmed in a scratch copy: it builds, passes the stable tests, its demo fails with the patch and passes without. `caught` is the result of running the property's quick check on the patched tree.", "", "| id | property | needs | result |", "|---|---|---|---|"]
res = {}
rf = os.path.join(V, "tools", "seeded_results.json")
if os.path.exists(rf): res = json.load(open(rf))
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), res.get(i, "not run yet")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
