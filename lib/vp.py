"""Build-and-run driver shared by all checks (see DESIGN.md, 'Machinery')."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = min(8, os.cpu_count() or 1)
LIB = "/usr/lib/x86_64-linux-gnu"
SYS = ["/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
       "/usr/include/petsc", "/usr/include/trilinos", "/usr/include/hdf5/openmpi", "/usr/include/scotch",
       "/usr/include/suitesparse", "/usr/include/opencascade", "/usr/include/slepc"]
HEAVY = {"assembly.cc", "solve.cc", "setup.cc", "active_set.cc", "assembly_data.cc",
         "gradient_crystal_plasticity_solver.cc"}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def headers_key(dirs):
    out = []
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".cc", ".inc")) or d.endswith("include"):
                    p = os.path.join(root, f)
                    out.append(sha(os.path.relpath(p, d), rd(p)))
    return sha(*out)


def compile_all(jobs):
    """jobs: list of (source, flags, extra_key_dirs) -> list of object paths."""
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    cache = {}

    def hk(dirs):
        k = tuple(dirs)
        if k not in cache:
            cache[k] = headers_key(dirs)
        return cache[k]

    todo, res = [], []
    for src, flags, dirs in jobs:
        key = sha(src, rd(src), " ".join(flags), hk(dirs))
        o = os.path.join(objdir, os.path.basename(src).replace(".cc", "") + "-" + key + ".o")
        res.append(o)
        if not os.path.exists(o):
            todo.append((os.path.getsize(src), src, flags, o))
    todo.sort(reverse=True)

    def one(t):
        _, src, flags, o = t
        tmp = o + ".tmp%d" % os.getpid()
        cmd = flags + ["-c", src, "-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            return "%s\n%s" % (src, "\n".join(l[:300] for l in r.stdout.decode(errors="replace").splitlines() if "error" in l or "note" in l)[:3000])
        os.rename(tmp, o)
        return None

    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(one, todo) if e]
    if errs:
        raise BuildError("\n".join(errs))
    return res


def repo_sources(scope):
    src = sorted(glob.glob(REPO + "/source/**/*.cc", recursive=True))
    if scope == "light":
        src = [s for s in src if os.path.basename(s) not in HEAVY]
    return src


def build(name, harness, scope="light", flags=(), shim=False, opt="-O1", release=False, link=(), cxx="g++",
          repo_flags=(), includes_repo=()):
    """Compile /repo's current sources and the harness; return the binary's path."""
    inc = []
    if shim:
        inc += ["-I" + VERIF + "/harness/shim"]
    inc += ["-I" + REPO + "/include"]
    for s in SYS:
        inc += ["-isystem", s]
    base = [cxx, "-std=gnu++17", opt, "-w", "-fPIC"] + ([] if release else ["-DDEBUG"]) + list(flags)
    jobs = []
    rdirs = [REPO + "/include"] + ([VERIF + "/harness/shim"] if shim else [])
    for s in repo_sources(scope):
        jobs.append((s, base + list(repo_flags) + inc, rdirs))
    hflags = base + ["-fno-access-control", "-DVP_REPO=\"" + REPO + "\"", "-I" + VERIF + "/harness"] + inc
    jobs.append((os.path.join(VERIF, "harness", harness), hflags,
                 rdirs + [VERIF + "/harness"] + [os.path.join(REPO, d) for d in includes_repo]))
    objs = compile_all(jobs)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    dl = LIB + ("/libdeal.ii.so.9.5.1" if release else "/libdeal.ii.g.so.9.5.1")
    libs = ["tbb", "petsc", "slepc", "p4est", "sc", "muparser", "umfpack", "boost_iostreams", "boost_serialization",
            "boost_system", "boost_thread", "boost_regex", "gsl", "gslcblas", "lapack", "blas", "z", "dl", "m"]
    cmd = [cxx] + [f for f in flags if f.startswith("-fsanitize")] + \
        ["-Wl,-rpath," + LIB + "/hdf5/openmpi:" + LIB + "/openmpi/lib", "-Wl,--as-needed"] + objs + [dl] + \
        sorted(glob.glob(LIB + "/libtrilinos_*.so")) + ["-l" + x for x in libs] + \
        [LIB + "/openmpi/lib/libmpi_cxx.so", LIB + "/openmpi/lib/libmpi.so", "-lstdc++fs", "-lpthread", "-fuse-ld=gold"] + list(link)
    exe = os.path.join(BUILD, "bin", name + "-" + sha(*(objs + cmd)))
    if not os.path.exists(exe):
        r = subprocess.run(cmd + ["-o", exe + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("\n".join(l[-300:] for l in r.stdout.decode(errors="replace").splitlines()[-12:]))
        os.rename(exe + ".tmp", exe)
    return exe


ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
           OMPI_MCA_btl_base_warn_component_unused="0", OMPI_MCA_btl="self,vader",
           OMPI_MCA_btl_vader_single_copy_mechanism="none",
           OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_plm_rsh_agent="", OMP_NUM_THREADS="1",
           OMPI_MCA_hwloc_base_binding_policy="none",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66:ignore_noninstrumented_modules=1:detect_deadlocks=0:report_thread_leaks=0:history_size=4",
           ASAN_OPTIONS="detect_leaks=0:exitcode=66:detect_container_overflow=0", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=66", OMPI_MCA_ess_singleton_isolated="1", OMPI_MCA_mpi_yield_when_idle="1", LC_ALL="C.UTF-8")


class Run:
    def __init__(self, rc, res, crumb, log, timed_out):
        self.rc, self.res, self.crumb, self.log, self.timed_out = rc, res, crumb, log, timed_out


def run_one(exe, args, timeout, scratch, tag, prefix=()):
    """One run; started again (at most twice) if MPI could not even be initialised."""
    for attempt in range(3):
        r = _run_one(exe, args, timeout, scratch, tag, prefix)
        if r.rc == 0 or r.crumb or r.timed_out or "MPI_INIT" not in r.log.upper():
            break
        time.sleep(0.5 + attempt)
    return r


def _run_one(exe, args, timeout, scratch, tag, prefix=()):
    wd = os.path.join(scratch, "wd-" + tag)
    os.makedirs(wd, exist_ok=True)
    out, crumb, log = (os.path.join(scratch, x + "-" + tag) for x in ("out", "crumb", "log"))
    for f in (out, crumb):
        if os.path.exists(f):
            os.unlink(f)
    cmd = list(prefix) + [exe, "--out", out, "--crumb", crumb, "--workdir", wd] + args
    tmp = os.path.join(scratch, "t-" + tag)
    os.makedirs(tmp, exist_ok=True)
    env = dict(ENV, TMPDIR=tmp)
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=wd, env=env,
                             start_new_session=True)
        to = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    res = None
    try:
        with open(out) as f:
            res = json.load(f)
    except Exception:
        pass
    c = None
    try:
        c = rd(crumb).split(b"\0")[0].decode()
    except Exception:
        pass
    lt = rd(log)[-3000:].decode(errors="replace")
    shutil.rmtree(wd, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    return Run(p.returncode, res, c, lt, to)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def is_known(known, prop, v):
    for k in known["findings"]:
        if k.get("status") == "open" and k["property"] == prop and re.fullmatch(k.get("signature", ""), v["sig"]) and \
                re.fullmatch(k["case"], v["key"]):
            return k
    return None


class Check:
    """One property's check.  parts: list of dicts describing harness runs."""

    def __init__(self, prop, level, rule, parts, assumptions=(), extra=None):
        self.prop, self.level, self.rule, self.parts = prop, level, rule, parts
        self.assumptions = list(assumptions)
        self.extra = extra

    def main(self, tier, only=None, part_only=None):
        t0 = time.time()
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        scratch = tempfile.mkdtemp(prefix="vp-%s-" % self.prop)
        try:
            return self._main(tier, seed, scratch, t0, only, part_only)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    def _main(self, tier, seed, scratch, t0, only, part_only):
        budget = float(os.environ.get("VP_BUDGET", "820" if tier == "quick" else "14000"))
        known = load_known()
        tot = dict(evaluations=0, checks=0, states=0, transitions=0, traces=0, capped=0)
        notes, maxn, samples, viols, errors = {}, {}, [], [], []
        built = []
        for part in self.parts:
            if part.get("tiers") and tier not in part["tiers"]:
                continue
            if part_only and part["name"] != part_only:
                continue
            b = dict(part["build"])
            if tier == "thorough" and part.get("build_thorough"):
                b.update(part["build_thorough"])
            try:
                built.append((part, build(name=self.prop + part["name"], **b)))
            except BuildError as e:
                if part.get("optional") and str(e).startswith(os.path.join(VERIF, "harness")) and len(self.parts) > 1:
                    # this part needs private interfaces of the solver that no longer exist
                    print("NOTE property=%s part=%s does not compile against the current private interface; skipped" % (self.prop, part["name"]))
                    notes["skipped_part_" + part["name"]] = 1
                    continue
                print("BUILD-ERROR property=%s part=%s\n%s" % (self.prop, part["name"], e))
                return 2
        tb = time.time() - t0
        for part, exe in built:
            nsh = 1 if only is not None else part.get("shards", NCPU)
            prefix = part.get("prefix", ())
            base = ["--tier", tier, "--seed", str(seed), "--alarm", str(part.get("alarm", 120))] + \
                list(part.get("args", []))
            if only is not None:
                base += ["--only", only]
            left = max(60, budget - (time.time() - t0))
            if tier == "quick":
                base += ["--deadline", str(int(left * 0.8))]
            procs = part.get("procs", 1)

            def job(i):
                return run_one(exe, base + (["--shard", "%d/%d" % (i, nsh)] if nsh > 1 else []), left, scratch,
                               "%s-%d" % (part["name"], i), prefix)
            with cf.ThreadPoolExecutor(max(1, NCPU // procs)) as ex:
                runs = list(ex.map(job, range(nsh)))
            found = []
            for r in runs:
                if r.res is not None and r.rc == 0:
                    for k in tot:
                        tot[k] += r.res[k]
                    for k, v in r.res["notes"].items():
                        notes[k] = notes.get(k, 0) + v
                    for k, v in r.res["max"].items():
                        maxn[k] = max(maxn.get(k, v), v)
                    samples += r.res["samples"][:2]
                    found += r.res["violations"]
                elif part.get("san") and r.rc == 66:
                    found.append({"sig": part["san"], "key": r.crumb or "", "what": r.log[-1500:]})
                else:
                    why = "timeout" if (r.timed_out or r.rc == -signal.SIGALRM) else "crash"
                    if r.crumb is None or r.crumb == "":
                        errors.append("part %s: harness failed before its first case (rc=%s)\n%s" %
                                      (part["name"], r.rc, r.log))
                    else:
                        found.append({"sig": why, "key": r.crumb,
                                      "what": "rc=%s while running this case; log tail: %s" % (r.rc, r.log[-600:])})
            # one representative per signature first, then the others; skip known ones
            found.sort(key=lambda v: (v["sig"], len(v["key"]), v["key"]))
            seen, news = {}, []
            for v in found:
                k = is_known(known, self.prop, v)
                if k:
                    seen.setdefault(k["id"], k)
                    continue
                news.append(v)
            for k in seen.values():
                k["_hit"] = True
            bysig = {}
            for v in news:
                bysig.setdefault(v["sig"], []).append(v)
            for sig, vs in sorted(bysig.items()):
                if len([1 for x in viols]) >= 4:
                    break
                confirmed = None
                for v in vs[:3]:
                    ok = 0
                    for rep in range(2):
                        b2 = [x for x in base]
                        if "--only" not in b2:
                            b2 += ["--only", v["key"]]
                        al = b2.index("--alarm")
                        b2[al + 1] = str(part.get("alarm", 120) * 3 if sig == "timeout" else part.get("alarm", 120) * 2)
                        if "--deadline" in b2:
                            d = b2.index("--deadline")
                            del b2[d:d + 2]
                        rr = run_one(exe, b2, part.get("alarm", 120) * 4, scratch, part["name"] + "-replay", prefix)
                        if sig == part.get("san"):
                            ok += 1 if rr.rc == 66 else 0
                        elif sig == "timeout":
                            ok += 1 if (rr.timed_out or rr.rc == -signal.SIGALRM or rr.rc == 142) else 0
                        elif sig == "crash":
                            ok += 1 if (rr.res is None and not rr.timed_out) else 0
                        elif rr.res is not None and any(x["sig"] == sig and x["key"] == v["key"]
                                                        for x in rr.res["violations"]):
                            ok += 1
                    if ok == 2:
                        confirmed = v
                        break
                if confirmed:
                    viols.append((part["name"], confirmed, len(vs)))
                else:
                    errors.append("part %s: %s did not replay deterministically: %s" % (part["name"], sig, vs[0]))
        for k in known["findings"]:
            if k.pop("_hit", False):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["summary"]))
        wall = time.time() - t0
        cov = {"evaluations": tot["evaluations"], "oracle_checks": tot["checks"], "rule": self.rule,
               "samples": samples[:8] or ["(none)"], "exhaustive": tot["capped"] == 0 and not errors,
               "build_s": round(tb, 1)}
        if tot["capped"]:
            cov["capped_cases"] = tot["capped"]
        if self.level == "model_checking":
            cov.update(states=tot["states"], transitions=tot["transitions"],
                       traces_validated_against_impl=tot["traces"])
        else:
            cov["distinct_nontrivial"] = tot["states"]
            if tot["transitions"]:
                cov["transitions"] = tot["transitions"]
        cov.update({k: v for k, v in notes.items()})
        if maxn:
            cov["max_observed"] = maxn
        ev = {"property": self.prop, "tier": tier, "seed": seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(viols)}
        if only is None and part_only is None:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
                f.write("\n")
        print("%s %s: %d cases, %d oracle checks, %d states, %d transitions, build %.0fs, wall %.0fs%s" %
              (self.prop, tier, tot["evaluations"], tot["checks"], tot["states"], tot["transitions"], tb, wall,
               ", CAPPED %d" % tot["capped"] if tot["capped"] else ""))
        for e in errors:
            print("ERROR " + e)
        if viols:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for part, v, n in viols:
                path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.prop, sha(v["sig"], v["key"])[:10]))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "part": part, "signature": v["sig"], "case": v["key"],
                               "what": v["what"],
                               "replay_cmd": "python3 %s/bin/check.py %s --tier %s --part %s --only '%s'" %
                               (VERIF, self.prop, tier, part, v["key"])}, f, indent=1)
                print("  [%s] %s  case: %s\n    %s" % (part, v["sig"], v["key"], v["what"][:1200]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if errors:
            return 2
        if tot["evaluations"] == 0:
            print("ERROR nothing was evaluated")
            return 2
        return 0
