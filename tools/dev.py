#!/usr/bin/env python3
"""Development aid: build one part of a check and run it in the foreground (stderr visible)."""
import os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, checks
prop = sys.argv[1]
pn = sys.argv[2] if len(sys.argv) > 2 else ""
c = checks.CHECKS[prop]
part = [p for p in c.parts if p["name"] == pn][0]
try:
    exe = vp.build(name=prop + part["name"], **part["build"])
except vp.BuildError as e:
    print(e); sys.exit(2)
d = tempfile.mkdtemp(prefix="vpdev-")
r = subprocess.run(list(part.get("prefix", ())) + [exe, "--out", d + "/out", "--workdir", d] + list(part.get("args", [])) + sys.argv[3:], cwd=d, env=vp.ENV)
print("rc", r.returncode)
try: print(open(d + "/out").read()[:3000])
except Exception as e: print(e)
shutil.rmtree(d)
