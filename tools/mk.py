#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/table.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import table  # noqa

V = os.path.dirname(HERE)
props, checks, na = [], [], []
for p in table.TABLE:
    assert len(p["title"]) <= 80, p["id"]
    props.append(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                      anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])))
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
    else:
        checks.append(dict(property=p["id"], quick_cmd="./check.py %s quick" % p["id"], thorough_cmd="./check.py %s thorough" % p["id"],
                           technique=p["technique"] or table.VN, level="other", level_note=p["level_note"] or table.VNOTE))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="./check.py setup", checks=checks, not_applicable=na,
         notes="One engine (driver/ + engine/) decides all properties from the compiler's typed IR; see DESIGN.md. Known findings: known_findings.json.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
