#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    P.append((id, dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                       anchors=dict(files=files, mechanism=[dict(name=x, where=files[0]) for x in mech])), technique, note, na))


exec(open(os.path.join(V, "tools", "property_table.py")).read())

with open(f"{V}/properties.jsonl", "w") as fh:
    for id, d, t, n, na in P:
        assert len(d["title"]) <= 80, (id, len(d["title"]))
        fh.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="python3 tools/frontend.py",
         checks=[dict(property=id, quick_cmd=f"python3 check.py {id}", thorough_cmd=f"python3 check.py {id} --tier thorough",
                      technique=t, level="other", level_note=n) for id, d, t, n, na in P if not na],
         not_applicable=[dict(property=id, reason=na) for id, d, t, n, na in P if na])
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json")); [jsonschema.validate(d, s) for _, d, *_ in P]
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))); print("valid", len(P))
except ImportError: pass
