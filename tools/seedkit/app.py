# Runs /repo's simple-shear application in a scratch directory and returns the files it leaves.
import os, shutil, subprocess, tempfile
S = "1. Spatial discretization parameters"
T = "2. Temporal discretization parameters/Simple loading"
O = "4. Output parameters"
H = "5. Postprocessing parameters/Homogenization"
V = "6. Solver parameters"
L = V + "/Constitutive laws' parameters"
def entry(path, name, value):
    p = path.split("/")
    return "".join("subsection %s\n" % x for x in p) + "set %s = %s\n" % (name, value) + "end\n" * len(p)
def run(over=(), np=1, crystals=2, elements=2, dim=2, slips=1, steps=2, angles=None, env=None, limit=120):
    t = tempfile.mkdtemp()
    try:
        w = lambda n, rows: open(t + "/" + n + ".txt", "w").write("".join(",".join(repr(float(v)) for v in r) + "\n" for r in rows))
        w("angles", angles or [[17. + 31 * i] if dim == 2 else [20. + 30 * i, 40. - 15 * i, 5.] for i in range(crystals)])
        w("directions", ([[1, 0], [1, 2]] if dim == 2 else [[1, 1, 0], [0, 1, -1]])[:slips])
        w("normals", ([[0, 1], [-2, 1]] if dim == 2 else [[1, -1, 1], [1, 1, 1]])[:slips])
        e = [(S, "FE's polynomial degree - Displacements", 1), (S, "FE's polynomial degree - Slips", 1), (S, "Number of global refinements", 0),
             (S, "Spatial dimension", dim), (S, "Mapping - Polynomial degree", 1), (S + "/Problem specific parameters", "Height of the strip", 1.0),
             (S + "/Problem specific parameters", "Number of elements in y-direction", elements),
             (S + "/Problem specific parameters", "Number of equally sized crystals in y-direction", crystals),
             (T, "Loading type", "monotonic"), (T, "Maximum load", 0.02), (T, "Minimum load", 0.005),
             (T + "/Monotonic load parameters", "Number of steps during monotonic load", steps), (T + "/Monotonic load parameters", "Duration of monotonic load", 1.0),
             ("3. Input parameters", "Euler angles path name", t + "/angles"), ("3. Input parameters", "Slip directions path name", t + "/directions"),
             ("3. Input parameters", "Slip normals path name", t + "/normals"), (O, "Graphical output directory", "results/"), (O, "Graphical output frequency", 1),
             (H, "Compute homogenized quantities", "true"), (H, "Homogenization frequency", 1), (V, "Boundary conditions at grain boundaries", "microfree"),
             (V + "/Monolithic algorithm/Krylov parameters", "Solver type", "directsolver"),
             (V + "/Monolithic algorithm/Newton-Raphson parameters", "Maximum number of iterations", 60), (V, "Verbose", "false"),
             (L + "/Hooke-Law's parameters", "C1111", 100.), (L + "/Hooke-Law's parameters", "C1122", 50.), (L + "/Hooke-Law's parameters", "C1212", 40.),
             (L + "/Hardening law's parameters", "Initial slip resistance", 0.5), (L + "/Hardening law's parameters", "Linear hardening modulus", 1.),
             (L + "/Vectorial microstress law's parameters", "Initial slip resistance", 0.5), (L + "/Scalar microstress law's parameters", "Regularization parameter", 0.1),
             (L + "/Cohesive law's parameters", "Critical cohesive traction", 5.), (L + "/Cohesive law's parameters", "Critical opening displacement", 0.02),
             (L + "/Contact law's parameters", "Penalty coefficient", 500.), (L + "/Microtraction law's parameters", "Grain boundary modulus", 1.)] + list(over)
        os.mkdir(t + "/run")
        open(t + "/run/p.prm", "w").write("set Verbose = false\n" + "".join(entry(*x) for x in e))
        os.mkdir(t + "/tmp")
        x = dict(os.environ, TMPDIR=t + "/tmp", OMP_NUM_THREADS="1", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
                 OMPI_MCA_ess_singleton_isolated="1", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1", **(env or {}))
        b = "/repo/_build/applications/simple_shear"
        p = subprocess.run(([b] if np == 1 else ["mpirun", "--oversubscribe", "-np", str(np), b]) + ["p.prm"], cwd=t + "/run", env=x, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
        r = {"rc": p.returncode, "log": p.stdout}
        for d, _, f in os.walk(t + "/run"):
            for n in f: r[os.path.relpath(d + "/" + n, t + "/run")] = open(d + "/" + n, "rb").read().decode("latin1")
        return r
    finally:
        shutil.rmtree(t)
def table(s):
    rows = [[x.strip() for x in l.strip().strip("|").split("|")] for l in s.splitlines() if l.startswith("|")]
    num = lambda x: float(x == "true") if x in ("true", "false") else float(x.strip(chr(34)) or "nan")
    return [dict(zip(rows[0], map(num, r))) for r in rows[1:]]
def need(c, msg):
    if not c:
        print("FAILED:", msg)
        raise SystemExit(1)
def vtu(s):
    # list of (point, {field: value}) of a .vtu file with compressed base64 arrays
    import base64, re, struct, zlib
    def dec(text, typ):
        text = "".join(text.split())
        n = struct.unpack("<I", base64.b64decode(text[:8])[:4])[0]
        hl = (4 * (3 + n) + 2) // 3 * 4
        head = struct.unpack("<%dI" % (3 + n), base64.b64decode(text[:hl])[:4 * (3 + n)])
        data, out, at = base64.b64decode(text[hl:]), b"", 0
        for c in head[3:]:
            out += zlib.decompress(data[at:at + c])
            at += c
        f, w = {"Float32": ("f", 4), "Float64": ("d", 8)}[typ]
        return struct.unpack("<%d%s" % (len(out) // w, f), out)
    pts, a = None, {}
    for m in re.finditer(r"<DataArray([^>]*)>(.*?)</DataArray>", s, re.S):
        at = dict(re.findall(r'(\w+)="([^"]*)"', m.group(1)))
        if at["type"] not in ("Float32", "Float64"): continue
        v = dec(m.group(2), at["type"])
        if at.get("Name") in a or (pts is None and "Name" not in at): pts = v
        else: a[at.get("Name")] = v
    n = len(pts) // 3
    return [(tuple(round(x, 5) for x in pts[3 * i:3 * i + 3]), {k: v[len(v) // n * i:len(v) // n * (i + 1)] for k, v in a.items()}) for i in range(n)]
