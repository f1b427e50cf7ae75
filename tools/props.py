#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # properties
C = {}   # checks
NA = []  # not applicable

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

def check(id, technique, note, level="model_checking"):
    C[id] = {"property": id, "quick_cmd": f"python3 checks/run.py {id} quick",
             "thorough_cmd": f"python3 checks/run.py {id} thorough", "evidence_file": f"evidence/{id}.json",
             "technique": technique, "level": level, "level_note": note}

exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
claimed = [i for i in ids if i in C and os.path.exists(os.path.join(V, "checks", i.lower() + ".py"))]
na = [{"property": i, "reason": r} for i, r in NA]
nai = [x["property"] for x in na]
for i in ids:
    if i not in claimed and i not in nai:
        na.append({"property": i, "reason": "not claimed yet: its specification and conformance check are not finished"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "hooks": HOOKS, "checks": [C[i] for i in claimed],
     "not_applicable": na, "notes": NOTES}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(ids), "properties,", len(claimed), "claimed,", len(na), "not applicable")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
