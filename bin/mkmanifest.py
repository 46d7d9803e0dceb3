"""writes MANIFEST.json from the check modules and the list of properties not claimed"""
import os, sys, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); sys.path.insert(0, os.path.join(V, "checks"))
import driver
NA = json.load(open(os.path.join(V, "not_applicable.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    f = os.path.join(V, "checks", p.lower() + ".py")
    if os.path.exists(f):
        m = driver.load(p)
        checks.append(dict(property=p, quick_cmd="python3 bin/check.py %s quick" % p, thorough_cmd="python3 bin/check.py %s thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.LEVEL_NOTE))
claimed = {c["property"] for c in checks}
na = [dict(property=p, reason=NA.get(p, "no check yet")) for p in props if p not in claimed]
json.dump(dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na,
               notes="See DESIGN.md. All checks compile /repo's current sources from scratch on every run; nothing in /repo is instrumented."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [n["property"] for n in na])
