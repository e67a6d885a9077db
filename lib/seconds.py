"""writes seconds.json from the evidence of quick runs"""
import json, glob, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(ROOT + "/evidence/???.json")):
    e = json.load(open(f))
    if e.get("tier", "quick") == "quick": out[e["property"]] = round(e.get("seconds") or e.get("wall_s"), 0)
json.dump(out, open(ROOT + "/lib/seconds.json", "w"), indent=1)
