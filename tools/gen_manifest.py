#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import checks
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
cs, na = [], []
for p in props:
    c = checks.CHECKS.get(p)
    if c:
        cs.append({"property": p, "quick_cmd": "python3 bin/check.py %s --tier quick" % p,
                   "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p,
                   "technique": "explicit-state model checking of the real code: " + c.rule,
                   "level": c.level, "level_note": c.note or c.rule})
    else:
        na.append({"property": p, "reason": checks.NOT_APPLICABLE.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 -c \"import ast; ast.parse(open('lib/vp.py').read())\"",
     "hooks": {"guard": "none", "enable": "no hooks: the checks build /repo's unmodified sources (harness/shim replaces one deal.II header at compile time)", "source_commits": []},
     "checks": cs, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(cs), "checks;", len(na), "not applicable")
