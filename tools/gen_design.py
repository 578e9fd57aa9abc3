"""Regenerate the two tables of DESIGN.md from known_findings.json and seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + "/known_findings.json"))
L = k.get("findings") or k.get("entries") or list(k.values())[-1]
fix = ["| property | commit | what failed |", "|---|---|---|"]
for e in L:
    if e["status"] == "fixed":
        fix.append("| %s | %s | %s |" % re.match(r"fixed: property=(\S+) (\S+) (.*)", e["text"]).groups())
seed = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = {}
if os.path.exists(V + "/tools/caught.json"):
    caught = json.load(open(V + "/tools/caught.json"))
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    seed.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), caught.get(i, "")))
p = V + "/DESIGN.md"
t = open(p).read()
for tag, rows in (("FIXTABLE", fix), ("SEEDTABLE", seed)):
    b, e = "<!-- %s -->\n" % tag, "\n<!-- /%s -->" % tag
    body = b + "\n".join(rows) + e
    if b in t:
        t = t[:t.index(b)] + body + t[t.index(e) + len(e):]
    else:
        t = t.replace(tag, body, 1)
open(p, "w").write(t)
