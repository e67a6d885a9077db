#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from lib/properties.py and lib/table.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import properties, table
ids = [p["id"] for p in properties.properties]
assert len(ids) == len(set(ids))
for p in properties.properties:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in properties.properties: f.write(json.dumps(p) + "\n")
checks, na = [], []
for i in ids:
    if i in table.checks:
        e = table.checks[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                       "technique": e["technique"], "level": e.get("level", "model_checking"), "level_note": e["note"]})
    else:
        na.append({"property": i, "reason": table.not_applicable.get(i, "no check yet")})
assert not set(table.checks) - set(ids)
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
           "notes": "run.py builds each explorer from the working tree of /repo. No hooks in /repo are needed: time, threads, allocation and stdio are intercepted at link time."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

import design, glob
rows = ["| id | property | oracle and monitors | bounds | s |", "| --- | --- | --- | --- | --- |"]
seconds = json.load(open(os.path.join(ROOT, "lib", "seconds.json")))
for p in properties.properties:
    i = p["id"]
    if i in table.checks: rows.append("| %s | %s | %s | %s | %s |" % (i, p["title"], design.oracle[i], table.checks[i]["bounds"], seconds.get(i, "")))
seeded = ["| change | breaks | what | caught by | missed at first |", "| --- | --- | --- | --- | --- |"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    i = f.split("/")[-2]
    m = json.load(open(f))
    seeded.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], design.caught.get(i, m["property"]), design.missed.get(i, "")))
text = open(os.path.join(ROOT, "lib", "DESIGN.in.md")).read().replace("@TABLE@", "\n".join(rows)).replace("@SEEDED@", "\n".join(seeded))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text)
