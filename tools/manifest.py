#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and jobs.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = getattr(jobs, "NOT_APPLICABLE", {})
checks, na = [], []
for p in props:
    i = p["id"]
    js = jobs.JOBS.get(i)
    if not js:
        na.append(dict(property=i, reason=NA.get(i, "the specification and harness for it are not built yet")))
        continue
    specs = sorted({j.spec + ".tla" for j in js if j.spec})
    checks.append(dict(
        property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {i}",
        evidence_file=f"evidence/{i}.json",
        technique="TLA+ specification (" + ", ".join(specs) + ") checked with TLC; its behaviours replayed into the real code and compared step by step",
        level="model_checking", level_note=jobs.NOTES.get(i, jobs.NOTES["*"])))
json.dump(dict(version=1, setup_cmd="python3 tools/build.py", checks=checks, not_applicable=na,
               notes="no hooks in /repo: everything is observed through public API, scripted channels and real sockets"), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
