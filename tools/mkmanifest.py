#!/usr/bin/env python3
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
NA = json.load(open(os.path.join(V, "tools/not_applicable.json")))
for p in props:
    i = p["id"]
    f = os.path.join(V, "checks", i.lower() + ".py")
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(f):
        src = open(f).read()
        note = re.search(r'^NOTE = "(.*)"', src, re.M)
        checks.append({"property": i, "quick_cmd": "python3 /verif/run.py " + i,
                       "thorough_cmd": "python3 /verif/run.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification checked with TLC; conformance of the real code by trace validation with TLC",
                       "level": "model_checking",
                       "level_note": note.group(1) if note else "Model checked over small constants; the code is bound by cases enumerated from the specification and seeded random cases, each validated by TLC against the specification."})
m = {"version": 1, "setup_cmd": "python3 /verif/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Checks copy /repo's working tree into /verif/build and build it there."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [p["id"] for p in props if p["id"] not in NA and p["id"] not in {c["property"] for c in checks}], "open")
