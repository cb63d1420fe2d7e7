#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, fsa/rules and the reasons below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
TECH = json.load(open(os.path.join(R, "tools", "technique.json")))
NA = {
    "P09": "which Python values a compiled function closes over, and whether they change later, depends on the call history of user objects and on jax's cache keys, which live outside the analysed source; the cases inside the package are decided where they show: replayed patches (P21), restored and refitted states (P04, P08)",
    "P10": "equality of compiled and multi-device results depends on XLA and on device counts at run time; the parts visible in the source are decided elsewhere: the order of accumulation, averaging and clipping in all trainer variants (P14), parts of collected results (P27), replication of restored states (P07)",
    "P30": "coverage is a statement about probability distributions of inputs; no source-level argument bounds it (the structural clauses of the conformal code are P20 and P21)",
    "P31": "convergence of a Markov chain is a statement about distributions of runtime values",
    "P32": "finiteness and accuracy of floating-point results quantify over runtime values; no sound static bound is in reach for jax array programs",
    "P33": "an operator-norm bound quantifies over the values of the weights and the number of power iterations",
    "P34": "round-trip equality and atomicity are decided inside third-party serialisers and the file system, outside the analysed source (the in-repository part is P07)",
    "P35": "agreement of covariance matrices with their definitions is a numerical statement over all models and data",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH and os.path.exists(os.path.join(R, "fsa", "rules", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} thorough", "evidence_file": f"evidence/{i}.json", "technique": TECH[i][0], "level": "other", "level_note": TECH[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 9)'", "checks": checks, "not_applicable": na,
     "notes": "All checks share one abstract interpreter (fsa/) that parses /repo/fortuna on every run; nothing of /repo is executed."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks])
