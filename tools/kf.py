# Adds a "fixed" entry to known_findings.json: kf.py PROPERTY COMMIT TEXT
import json, sys
p = "/verif/known_findings.json"; k = json.load(open(p)); prop, c, what = sys.argv[1:4]
k.append({"kind": "fixed", "property": prop, "commit": c, "entry": f"fixed: property={prop} {c} {what}"})
json.dump(k, open(p, "w"), indent=1)
