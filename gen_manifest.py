#!/usr/bin/env python3
"""Writes MANIFEST.json from table.py and checks that it is in step with properties.jsonl"""
import json, os, subprocess
from table import CHECKS
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = {}
try:
    from table import NOT_APPLICABLE as na
except ImportError:
    pass
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
         notes="python3 check.py <ID> quick|thorough runs one check; python3 check.py replay <file> runs a saved failure again. All harnesses are in harness/ (an external Go module, which uses only the exported API of /repo); no hooks in /repo are needed.")
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                                evidence_file="evidence/%s.json" % p, technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=p, reason=na.get(p, "no check is built yet")))
assert set(CHECKS) <= set(props), set(CHECKS) - set(props)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print("checks:", len(m["checks"]), "not claimed:", [x["property"] for x in m["not_applicable"]])
