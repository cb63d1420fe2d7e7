#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property, tools/design_tail.md, the table of planted bugs."""
import importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
TECH = json.load(open(os.path.join(R, "tools", "technique.json")))
NOTES = json.load(open(os.path.join(R, "tools", "design_notes.json")))
MAN = json.load(open(os.path.join(R, "MANIFEST.json")))
NA = {x["property"]: x["reason"] for x in MAN["not_applicable"]}
out = [open(os.path.join(R, "tools", "design_head.md")).read().rstrip(), ""]
for p in props:
    i = p["id"]
    out += [f"### {i} — {p['title']}", ""]
    if i in NA:
        out += ["**Not claimed.** " + NA[i], ""]
        continue
    m = importlib.import_module("fsa.rules." + i.lower())
    out += ["*Method.* " + TECH[i][0] + ".", "", "*What is decided, against what.* " + m.EXPLANATION.strip(), "", "*Bounds.* " + TECH[i][1] + ".", "", "*Assumed.* " + "; ".join(m.ASSUMPTIONS) + ".", ""]
    if i in NOTES:
        out += ["*Not judged / exemptions.* " + NOTES[i], ""]
out += [open(os.path.join(R, "tools", "design_tail.md")).read().rstrip(), "", "## Planted bugs and the checks that catch them", ""]
for folder in ("seeded", "seeded_more"):
    if folder == "seeded_more":
        out += ["", "Further ones, confirmed in the same way and kept in `seeded_more/` so that a full vcheck (about 5 minutes per planted bug) fits in its two hours:", ""]
    for s in sorted(os.listdir(os.path.join(R, folder))) if os.path.isdir(os.path.join(R, folder)) else []:
        d = json.load(open(os.path.join(R, folder, s, "meta.json")))
        out.append(f"- `{s}` ({d['property']}, caught by {d['property']}): {d['what_it_breaks']}; needs {d['needs']}.")
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(out) + "\n")
