#!/usr/bin/env python3
"""Development aid: run a check part over all shards, list violations by signature and the slowest cases."""
import os, subprocess, sys, tempfile, shutil, json, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, checks
prop, pn = sys.argv[1], sys.argv[2]
part = [p for p in checks.CHECKS[prop].parts if p["name"] == pn][0]
exe = vp.build(name=prop + part["name"], **part["build"])
d = tempfile.mkdtemp(prefix="vpdev-")
n = 8
ps = []
for i in range(n):
    os.mkdir("%s/w%d" % (d, i))
    ps.append(subprocess.Popen(list(part.get("prefix", ())) + [exe, "--out", "%s/out%d" % (d, i), "--crumb", "%s/crumb%d" % (d, i), "--workdir", "%s/w%d" % (d, i), "--shard", "%d/%d" % (i, n)] + list(part.get("args", [])) + sys.argv[3:], cwd=d, env=vp.ENV, stdout=open("%s/log%d" % (d, i), "w"), stderr=subprocess.STDOUT))
g = collections.defaultdict(list)
notes = collections.Counter(); tot = collections.Counter(); mx = {}
for i, p in enumerate(ps):
    p.wait()
    try:
        r = json.load(open("%s/out%d" % (d, i)))
    except Exception as e:
        print("shard", i, "rc", p.returncode, open("%s/crumb%d" % (d, i), "rb").read().split(b"\0")[0], open("%s/log%d" % (d, i)).read()[-600:])
        continue
    for v in r["violations"]: g[v["sig"]].append(v)
    for k, v in r["notes"].items(): notes[k] += v
    for k, v in r["max"].items(): mx[k] = max(mx.get(k, v), v)
    for k in ("evaluations", "checks", "states", "transitions", "capped", "n_violations"): tot[k] += r[k]
print(dict(tot), dict(notes), mx)
for s, vs in g.items():
    print("==", s, len(vs))
    for v in sorted(vs, key=lambda v: len(v["key"]))[:12]: print("   ", v["key"], "|", " ".join(v["what"].split())[:330])
shutil.rmtree(d)
