#!/usr/bin/env python3
"""Write MANIFEST.json: one check per property that has a harness."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PAR = {"C28", "C29", "C30", "C31", "C32"}
NOTE = {}
NA = {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA or not os.path.exists(os.path.join(V, "harness", p + ".cc")):
        na.append(dict(property=p, reason=NA.get(p, "no check built yet")))
        continue
    tech = "property-based testing: generated meshes against a reference model"
    if p in PAR: tech = "property-based testing: generated meshes on 1-4 MPI ranks against a serial reference model"
    checks.append(dict(property=p, quick_cmd="./check.py %s quick" % p, thorough_cmd="./check.py %s thorough" % p,
        evidence_file="evidence/%s.json" % p, technique=tech, level="exploration",
        level_note="bounded random exploration with a reference model as oracle; holds on everything generated, no proof. See DESIGN.md section " + p))
json.dump(dict(version=1, setup_cmd="python3 tools/vbuild.py", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
