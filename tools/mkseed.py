#!/usr/bin/env python3
"""mkseed.py SPEC.py: make, validate and store planted bugs.  SPEC.py defines SEEDS: list of dicts
id, property, needs, breaks, edits [(file, old, new)], demo (C++ text).  --check also runs the check."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = [a for a in sys.argv[2:] if not a.startswith("-")]
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("stable") or base.get("passed") or base.get("tests")
assert sh("git -C /repo status --short --untracked-files=no").stdout.strip() == "", "dirty"
bad = []
for s in ns["SEEDS"]:
    if sel and s["id"] not in sel: continue
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    ok = True
    try:
        for f, old, new in s["edits"]:
            p = "/repo/" + f
            t = open(p).read()
            if t.count(old) != 1: print(s["id"], "EDIT MATCHES", t.count(old), f); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        for f, old, new in s["edits"]:
            import difflib
            b = set(sh("git -C /repo show 80407e2:" + f).stdout.splitlines())
            for l in difflib.ndiff(old.splitlines(), new.splitlines()):
                if l.startswith("- ") and l[2:] not in b: print(s["id"], "NOT ORIGINAL:", l)
        if s.get("demo"): open(d + "/demo.cc", "w").write(s["demo"])
        if s.get("demo_sh"): open(d + "/demo.sh", "w").write(s["demo_sh"])
        else: shutil.copy(V + "/tools/seedkit/demo.sh", d + "/demo.sh")
        for n, t in s.get("files", {}).items(): open(d + "/" + n, "w").write(t)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(s["id"], "BUILD FAILS", b.stdout[-1500:]); continue
        t = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        r = json.load(open("/tmp/seed_out.json"))
        print(s["id"], "tests passed:", r["passed"])
        if len(r["passed"]) < 2:
            print(s["id"], "REJECTED: the existing tests catch it")
            bad.append(d)
            continue
        x = sh("bash %s/demo.sh" % d, cwd="/repo")
        print(s["id"], "demo with bug rc", x.returncode, x.stdout[-400:].strip())
        if "--check" in sys.argv:
            c = sh("timeout 900 python3 bin/check.py %s | cut -c1-300 | tail -6" % s["property"], cwd=V)
            print(s["id"], "CHECK:", c.stdout.strip())
    finally:
        sh("git -C /repo checkout -- .")
b = sh("bash /opt/vp/build.sh")
assert b.returncode == 0
for s in ns["SEEDS"]:
    if sel and s["id"] not in sel: continue
    if os.path.join(V, "seeded", s["id"]) in bad:
        shutil.rmtree(os.path.join(V, "seeded", s["id"]))
        continue
    x = sh("bash %s/demo.sh" % os.path.join(V, "seeded", s["id"]), cwd="/repo")
    print(s["id"], "demo clean rc", x.returncode, x.stdout[-300:].strip())
