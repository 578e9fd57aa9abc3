"""Registry of the checks: property -> Check."""
from vp import Check, REPO

CHECKS = {}


NOT_APPLICABLE = {}


def add(prop, level, rule, parts, assumptions=(), note=None):
    CHECKS[prop] = Check(prop, level, rule, parts, assumptions)
    CHECKS[prop].note = note


def part(name, harness, **kw):
    b = dict(harness=harness, scope=kw.pop("scope", "light"))
    for k in ("flags", "shim", "opt", "release", "link", "includes_repo"):
        if k in kw:
            b[k] = kw.pop(k)
    return dict(name=name, build=b, **kw)


add("N01", "model_checking",
    "every sequence of trial objective values over a 12-value lattice up to the depth bound, for every "
    "parameter/initial-value configuration; each sequence is replayed on a fresh and on a used object and compared "
    "with a long-double reference interpolation",
    [part("", "n01.cc")])
add("H01", "model_checking",
    "full tree of operation sequences on the real object (copied at each branch) against a reference state machine",
    [part("", "h01.cc")])
add("H02", "model_checking",
    "full tree of operation sequences on the real object (copied at each branch) against a reference state machine",
    [part("", "h02.cc")])

LATTICE = "exhaustive enumeration of the finite configuration/argument lattice on the real code, each point compared with "
add("C01", "model_checking", LATTICE + "the closed-form cubic tensor rotated in long double", [part("", "c01.cc")])
add("C02", "model_checking", LATTICE + "slip systems rotated independently from the raw file data", [part("", "c02.cc")])
add("C03", "model_checking", LATTICE + "long-double regularisations, their derivatives and order/bound/oddness relations", [part("", "c03.cc")])
add("C04", "model_checking", LATTICE + "the defect-energy derivatives in the slip system's own frame", [part("", "c04.cc")])
add("C05", "model_checking", LATTICE + "derivatives of the interface energy built from independently rotated slip systems", [part("", "c05.cc")])
add("C06", "model_checking", "every opening history of a lattice up to the depth bound on the real law, against envelope/secant reference, branch Jacobians, continuity and dissipation", [part("", "c06.cc")])
add("C07", "model_checking", LATTICE + "the penalty and power-law references", [part("", "c07.cc")])
add("X01", "model_checking", LATTICE + "an independent reader/rotation; every single-defect malformed variant must be rejected", [part("", "x01.cc")])
add("U01", "model_checking", LATTICE + "the definitions", [part("", "u01.cc")])
add("O03", "model_checking", "every call sequence up to the depth bound on the real logger against a reference log", [part("", "o03.cc")])
add("H03", "model_checking", "every material layout of small meshes, every ordered cell pair, repeated lookups and re-initialisation on the real storage", [part("", "h03.cc")])
add("F01", "model_checking", "every material layout of small meshes x crystals, slips, degrees, decohesion, block structure on the real field, against the layout derived from the geometry", [part("", "f01.cc")])
add("F02", "model_checking", "every operation sequence (write, update, constrain, reset, copy) up to the depth bound on the real field against a reference model; norms of all lattice vectors and unit vectors against sums over the geometric classification", [part("", "f02.cc")])
add("L01", "model_checking", "the full step sequence of every loading programme of a parameter lattice, stepped as the application does, against the programme in exact rationals", [part("", "l01.cc")])
add("L02", "model_checking", LATTICE + "the loading programme evaluated in long double, for every component of the field layout", [part("", "l02.cc")])
add("O01", "model_checking", LATTICE + "every output component computed from the prescribed affine fields with independently rotated data", [part("", "o01.cc")])
add("O02", "model_checking", LATTICE + "exact integrals of the prescribed affine states and the loading programme", [part("", "o02.cc")])
add("R01", "model_checking", "every declared parameter x {absent, each alternative, each invalid value} and pairs of parameters parsed by the real code in debug and in release mode; the complete parameter state is compared field by field; every file round-trips",
    [part("debug", "r01.cc"), part("release", "r01.cc", release=True)])
add("R02", "model_checking", LATTICE + "the monomials that define each quantity, every rescaling of one base quantity, and the same values read from a parameter file", [part("", "r02.cc")])
add("S01", "model_checking", "every load history (increment sequence) up to the depth bound for every configuration of the option lattice on the real solver; at every converged step the balances are evaluated by an independent assembly", [part("", "s01.cc", scope="full", release=True, opt="-O2"), part("debug", "s01.cc", scope="full", args=["--mode", "brief"])])
add("S02", "model_checking", "every trial state of an enumerated set (accepted steps x perturbation x step size) for every combination of options within the deviation bound: the assembled residual against an independent assembly and every column of the assembled matrix against central differences of it",
    [part("", "s02.cc", scope="full", release=True, opt="-O2")])
add("S03", "model_checking", "every pair of solver settings (algorithm, line search, extrapolation, Krylov solver, micro reset) x every load history up to the depth bound on the real solver, compared step by step; every linear solve against the assembled matrix; every line search against its definition",
    [part("", "s03.cc", scope="full", release=True, opt="-O2"), part("systems", "s03.cc", scope="full", release=True, opt="-O2", args=["--mode", "systems"], optional=True)])
add("S04", "model_checking", "every order of the cell tasks, scratch assignment and copy overlap of an interposed task scheduler, for every option within the deviation bound, over load histories of the real solver; all task pairs of the same loops under a happens-before race detector",
    [part("", "s04.cc", scope="full", release=True, opt="-O2", shim=True), part("races", "s04.cc", scope="full", release=True, opt="-O1", shim=True, flags=["-fsanitize=thread", "-g"], args=["--mode", "tsan"], san="data-race")])
add("S08", "model_checking", "every load history up to the depth bound for every configuration of the option lattice on the real solver; after every accepted step the stored internal variables are compared with reference accumulators", [part("", "s01.cc", scope="full", release=True, opt="-O2", args=["--which", "S08"])])
add("S10", "model_checking", "every load history up to the depth bound for every configuration of the option lattice on the real solver, compiled with the address and undefined-behaviour sanitisers, and again twice with different contents of unwritten heap memory",
    [part("memory", "s10.cc", scope="full", release=True, opt="-O1", flags=["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-g1"], args=["--mode", "memory"], san="memory-error"),
     part("fill", "s10.cc", scope="full", release=True, opt="-O2", args=["--mode", "fill"])])
add("S06", "model_checking", "every affine load x orientation x mesh x degree x regularisation of the enumerated lattice and every load history up to the depth bound on the real solver, against the closed-form elastic state and the solution of the material point", [part("", "s06.cc", scope="full", release=True, opt="-O2")])
add("S07", "model_checking", "every lattice set of reference units x every configuration within the deviation bound x every load history up to the depth bound: the real solver's dimensionless solution, converted back, against its dimensional one", [part("", "s07.cc", scope="full", release=True, opt="-O2")])
add("S09", "model_checking", "every assignment of interface damage patterns to the faces of every enumerated mesh, and every load history up to the depth bound, on the real solver; the projected field and the macroscopic value are compared with an independent projection and average", [part("", "s09.cc", scope="full", release=True, opt="-O2")])
add("S05", "model_checking", "every combination of options within the deviation bound x every load history up to the depth bound x 2 to 4 processes x every assignment of the cells to processes, on the real solver under mpirun, compared with the run of one process",
    [part("", "s05.cc", scope="full", release=True, opt="-O2", procs=2, alarm=300)])
add("S11", "model_checking", "every load history up to the depth bound for every rate-independent configuration of the option lattice on the real solver; the slips that evolved are compared with those whose independently computed elastic predictor exceeds their independently computed resistance",
    [part("", "s11.cc", scope="full", release=True, opt="-O2")])
add("S12", "model_checking", "every load history up to the depth bound for every configuration of the option lattice on the real solver, each repeated with every limit it needs met exactly and missed by one; the solver's log and statistics are read back and compared with the run",
    [part("", "s12.cc", scope="full", release=True, opt="-O2")])
WRAP = ["-Wl,--wrap=_ZN3gCP7FEFieldILi%dEE10setup_dofsEv,--wrap=_ZN3gCP31GradientCrystalPlasticitySolverILi%dEE22solve_nonlinear_systemEb" % (d, d) for d in (2, 3)]
add("A01", "model_checking", "every combination of dimension, degrees, crystals, slips, decohesion, grain-boundary option, mesh and loading within the bounds: the real application stepped through its whole loading programme, the constraints in force at every step compared with those derived from the geometry, unknown by unknown",
    [part("", "a01.cc", scope="full", release=True, opt="-O1", flags=["-I" + REPO], includes_repo=["applications"], link=WRAP)])
add("A02", "model_checking", "every loading programme x output cadence x homogenisation cadence, and every configuration x number of processes, within the bounds: complete runs of the real application as processes of their own; every file left behind is compared with the programme, the cadence and a second run over old results",
    [part("", "a02.cc", scope="full", release=True, opt="-O1", flags=["-I" + REPO], includes_repo=["applications"])])
