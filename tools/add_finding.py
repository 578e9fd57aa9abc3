#!/usr/bin/env python3
"""add_finding.py ID PROP COMMIT TEXT: record a repaired defect."""
import json, sys, os
p=os.path.join(os.path.dirname(__file__),"..","known_findings.json")
d=json.load(open(p))
i,prop,c,t=sys.argv[1:5]
d["findings"]=[f for f in d["findings"] if f["id"]!=i]
d["findings"].append({"id":i,"status":"fixed","property":prop,"text":f"fixed: property={prop} {c} {t}"})
open(p,"w").write(json.dumps(d,indent=1)+"\n")
