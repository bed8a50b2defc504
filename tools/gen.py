#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P
V = os.path.dirname(here)
P.sort(key=lambda p: p["id"])
assert len(set(p["id"] for p in P)) == len(P)
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["state"]:
            a["state"] = p["state"]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                                why_tests_cant=p["why"], anchors=a)) + "\n")
m = dict(version=1, setup_cmd="python3 engine/build.py",
         checks=[dict(property=p["id"], quick_cmd="VERIF_TIER=quick python3 checks/%s.py" % p["id"].lower(),
                      thorough_cmd="VERIF_TIER=thorough python3 checks/%s.py" % p["id"].lower(),
                      technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P if p["na"] is None],
         not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"] is not None],
         notes="See DESIGN.md. No hooks in /repo; all instantiations live in /verif/harness.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
for p in P:
    if p["na"] is None:
        assert os.path.exists(V + "/checks/%s.py" % p["id"].lower()), p["id"]
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(V + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), sch)
    print("valid")
except ImportError:
    print("not validated")
