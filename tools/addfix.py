#!/usr/bin/env python3
"""addfix.py PROP COMMIT WHAT -- record a repaired defect"""
import json, sys
f = "/verif/known_findings.json"; d = json.load(open(f))
d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(d, open(f, "w"), indent=1)
