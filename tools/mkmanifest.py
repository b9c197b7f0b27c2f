#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks = []
for i in ids:
    if i in props.ALL:
        s = props.ALL[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
                           technique=s.get("technique", "property-based testing: generated cases against a reference oracle, with shrinking"),
                           level=s.get("level", "exploration"),
                           level_note=s.get("note", "Generated-input search on the rebuilt library; holds on the explored cases only. "
                                            "Trusts the reference implementation, the compiler and the rounding bounds used.")))
    else:
        NA[i] = "check not built yet"
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="All checks rebuild the library out of tree from /repo/src (content-addressed cache in /verif/build). No hooks in /repo are needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
