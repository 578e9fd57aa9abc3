#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

S="source/"; G="source/gradient_crystal_plasticity/"; I="include/gCP/"

# ------------------------------------------------------------------ solver
p("S01","A converged load step is in discrete mechanical equilibrium",
  "After every load step the solver reports as converged, the displacement and slip fields it returns satisfy the discrete linear-momentum balance and every slip system's micro-force balance (elasticity, rate-dependent slip resistance with hardening, gradient microstress, Neumann traction, supply term, grain-boundary microtraction, cohesive and contact tractions) to within the requested nonlinear tolerance. The internal variables entering that balance are the ones that follow from the converged fields of the previous and current steps. A step that needs no correction (no load increment on a balanced state) is accepted as it is.",
  ["configurations","histories"],"every combination of dimension, slip count, hardening, regularisation function, gradient exponent, grain-boundary condition, decohesion and load history in the enumerated space",
  "The stable tests run one Newton iteration log of a scalar line search; no test recomputes the balance equations of any solve.",
  [G+"assembly.cc",G+"solve.cc",G+"quadrature_point_history.cc",I+"gradient_crystal_plasticity.h"],
  [("residual assembly",G+"assembly.cc"),("Newton loop and convergence test",G+"solve.cc"),("reset/update of internal variables",G+"quadrature_point_history.cc")],
  ["FEField::solution after solve_nonlinear_system"])
p("S02","The assembled tangent is the derivative of the assembled residual",
  "At every admissible state (any displacement, slip, hardening, damage and time step) the system matrix used by the Newton iteration equals the derivative of the residual with respect to the unknowns, for every combination of constitutive options the parameter file can select. Where the code uses a documented approximation (the regularised sign in the hardening term; damage held fixed; one branch at the kinks of contact and cohesive laws) the tangent is the derivative of that approximation.",
  ["configurations","inputs"],"all option combinations x a lattice of states, every matrix column",
  "No test compares the tangent with the residual; a wrong tangent only slows convergence on the sampled problem.",
  [G+"assembly.cc","source/constitutive_laws.cc"],
  [("assemble_jacobian",G+"assembly.cc"),("law jacobians","source/constitutive_laws.cc")],
  ["jacobian and residual of the linear system"])
p("S03","The solution of a step does not depend on the numerical path taken to it",
  "For a given load history the converged fields and internal variables do not depend on the solution algorithm (monolithic or staggered), on whether a line search or start-value extrapolation is used, on the Krylov solver selected, or on rejected trial states visited on the way. A solve neither reads nor leaves behind data of earlier, unconverged iterates. Every linearised system the solver forms, including the reduced (Schur) system of the embracing algorithm and the decoupled systems of the staggered ones, is solved to the requested tolerance, and a line-search trial equals the start of the iteration plus the step length times the Newton update.",
  ["configurations","histories"],"all pairs of solver settings x enumerated load histories (including non-monotonic ones)",
  "Tests run no solve twice with different settings.",
  [G+"solve.cc",G+"quadrature_point_history.cc","source/fe_field.cc","source/line_search.cc"],
  [("staggered and monolithic drivers",G+"solve.cc"),("reset_and_update_internal_variables",G+"quadrature_point_history.cc"),("initial trial solution / extrapolation",G+"solve.cc")],
  ["FEField::solution after each step"])
p("S04","Assembly and history update are independent of task scheduling",
  "The residual, the tangent and the internal variables obtained for a given state are the same for every order in which the parallel cell tasks execute and for every assignment of scratch data to tasks, and concurrent tasks never write the same datum.",
  ["schedules"],"all execution orders and scratch assignments of the cell tasks of small meshes",
  "A test samples one schedule of the thread pool; a scratch carry-over or cross-cell write shows only under specific orders.",
  [G+"assembly.cc",G+"quadrature_point_history.cc",G+"assembly_data.cc",I+"assembly_data.h"],
  [("WorkStream worker/copier pairs",G+"assembly.cc"),("scratch and copy objects",I+"assembly_data.h"),("local history update",G+"quadrature_point_history.cc")],
  ["system vector/matrix, quadrature point histories"],
  "none: the task scheduler is replaced at compile time by an interposed work_stream.h")
p("S05","Results do not depend on the number of MPI processes",
  "Solving the same single-crystal problem (the README restricts polycrystals to serial runs) on any number of processes, i.e. for every partition of the cells, gives the same displacement and slip fields, the same internal variables, and the same reported global quantities.",
  ["configurations","schedules"],"process counts 1..4 x enumerated problems",
  "The registered tests run on one process.",
  [G+"setup.cc",G+"assembly.cc",G+"solve.cc","source/fe_field.cc","source/postprocessing.cc"],
  [("locally owned/relevant partitions","source/fe_field.cc"),("ghost exchange and compress",G+"assembly.cc"),("global reductions","source/postprocessing.cc")])
p("S06","Elastic response and uniform shear reproduce the closed-form solution",
  "With slip suppressed, any affine displacement prescribed on the boundary is reproduced exactly in the interior with the uniform stress given by the elastic law, and under a prescribed macroscopic strain on a periodic cell the total strain averages to that strain. With uniform slip permitted, the shear response of a homogeneous crystal equals the closed-form one-dimensional rate-dependent solution at every step.",
  ["configurations","inputs"],"enumerated crystal orientations, mesh shapes, degrees, affine loads and step sequences",
  "No test checks any solution against an analytical reference.",
  [G+"assembly.cc",G+"solve.cc","source/constitutive_laws.cc"],
  [("linear momentum residual",G+"assembly.cc"),("elastic strain and Hooke laws","source/constitutive_laws.cc")])
p("S07","Dimensionless and dimensional input describe the same problem",
  "Solving a problem with the dimensionless formulation enabled and with it disabled gives the same physical displacement, slip and stress histories once the reported characteristic quantities are applied.",
  ["configurations","histories"],"enumerated material data, characteristic quantities and load histories",
  "Every test uses a single formulation.",
  ["source/run_time_parameters.cc",G+"assembly.cc","source/constitutive_laws.cc"],
  [("dimensionless groups","source/run_time_parameters.cc"),("scaling factors in the residual",G+"assembly.cc")])
p("S08","Internal variables follow exactly the accepted load history",
  "After each accepted step the slip resistances are the previous accepted values plus the hardening increment of that step's slips, however many iterations or trial states the solver needed, and grain-boundary damage never decreases and stays within [0,1]. Both sides of a grain-boundary face see one and the same interface state.",
  ["histories","configurations"],"all load histories up to a depth over {load, unload, reload, hold} x hardening and decohesion options",
  "The history test updates a single point once; nothing exercises the commit/rollback cycle of the solver.",
  [G+"quadrature_point_history.cc",I+"quadrature_point_history.h",G+"solve.cc"],
  [("store/reset/update cycle",G+"quadrature_point_history.cc")])
p("S09","Reported grain-boundary damage is the damage of the interface",
  "The damage field written at grain boundaries and the macroscopic damage value equal the projection and the area average over all grain-boundary faces of the current interface damage variables: 0 for an undamaged and at most 1 for a fully damaged interface, and zero when nothing is damaged or there is no grain boundary.",
  ["configurations","inputs"],"enumerated interface damage assignments x meshes",
  "No test evaluates the damage projection or the macroscopic damage.",
  [G+"solve.cc",G+"assembly.cc",G+"gradient_crystal_plasticity_solver.cc"],
  [("L2 projection",G+"assembly.cc"),("get_macroscopic_damage",G+"gradient_crystal_plasticity_solver.cc")])
p("S10","No load history makes the solver use memory it does not own or fill",
  "For every admissible configuration and every load history, setting up, assembling, solving and updating the internal variables read and write only memory the solver owns, perform no undefined arithmetic, and never let the result depend on the contents of memory nothing was written to.",
  ["configurations","histories"],"all option combinations x load histories up to a depth, under memory and undefined-behaviour instrumentation and under different contents of fresh memory",
  "Tests run without instrumentation and on one configuration; an out-of-range or unwritten value often leaves their results unchanged.",
  [G+"assembly.cc",G+"quadrature_point_history.cc",G+"assembly_data.cc",G+"setup.cc",G+"solve.cc"],
  [("scratch and copy objects",G+"assembly_data.cc"),("local history update",G+"quadrature_point_history.cc"),("storage of the internal variables",G+"setup.cc")])
p("S11","A rate-independent slip system flows only beyond its slip resistance",
  "With a rate-independent (active-set) material, after every accepted step a slip has evolved only at nodes where the elastic predictor - the resolved shear stress, back stress and interface traction evaluated at the old slips - exceeds the current slip resistance, no node that stayed at rest is above its resistance, the slip goes in the direction of the predictor, and the resistances of all systems of the crystal, flowing or not, harden as the self and latent moduli prescribe.",
  ["histories","configurations"],"all load histories up to a depth over {load, unload, reload, hold} x every rate-independent configuration of the option lattice (solution algorithm, hardening moduli, crystals, decohesion, grain-boundary option, dimension)",
  "No test runs the solver with a rate-independent material; the active set changes within and between the steps depending on the load history.",
  [G+"active_set.cc",G+"solve.cc",G+"setup.cc"],
  [("determine_active_set / determine_inactive_set","source/gradient_crystal_plasticity/active_set.cc"),("restart of the Newton loop with a new set",G+"solve.cc"),("initial slip resistance and latent hardening",G+"setup.cc")])
p("S12","Every load step ends within its limits and is reported as it happened",
  "Every call for a load step ends: either converged or with an error once an iteration limit is exhausted, never looping on. A limit a step meets exactly changes nothing, one missed by one is an error rather than an unconverged step taken as converged; and the log and the statistics written by the solver state the iterations, the residuals, the convergence rates and the step counts that took place, all finite.",
  ["histories","configurations"],"all load histories up to a depth x solution algorithms x materials, each repeated with every limit it needs met exactly and missed by one",
  "No test drives the solver to a limit or reads its log.",
  [G+"solve.cc",G+"gradient_crystal_plasticity_solver.cc","source/utilities.cc"],
  [("the solution algorithms' loops",G+"solve.cc"),("Logger","source/utilities.cc")])
# ------------------------------------------------------------------ constitutive
p("C01","The elasticity law has cubic symmetry and rotates with the crystal",
  "The stress is the linear, symmetric, energy-conserving cubic response of the given stiffness constants expressed in the crystal's axes: rotating the crystal and the strain together rotates the stress, lattice symmetry rotations leave it unchanged, positive strain energy results from stable constants, and the two-dimensional law agrees with the plane-strain restriction of the three-dimensional one. Every crystal gets its own tensor.",
  ["inputs","configurations"],"a lattice of stiffness triples, Euler angles and all basis strains, 2-D and 3-D, 1..3 crystals",
  "No test evaluates the stiffness tensor of a rotated crystal.",
  ["source/constitutive_laws.cc","source/crystal_data.cc"],
  [("HookeLaw::init rotation","source/constitutive_laws.cc"),("rotation tensors","source/crystal_data.cc")])
p("C02","Elastic strain and resolved stress are work-conjugate",
  "The elastic strain is the total strain (plus any prescribed macroscopic strain) minus the sum of all slips times their symmetrised Schmid tensors, the plastic strain is trace-free, and the resolved shear stress of each system is the stress power per unit slip, for every crystal, slip system and strain.",
  ["inputs","configurations"],"all basis strains x slip vectors over a lattice x crystals, 2-D and 3-D",
  "No test exercises these laws.",
  ["source/constitutive_laws.cc"],[("ElasticStrain::get_elastic_strain_tensor","source/constitutive_laws.cc"),("ResolvedShearStressLaw","source/constitutive_laws.cc")])
p("C03","Slip resistance law is dissipative, saturating and has an exact derivative",
  "For each regularisation the scalar microstress is odd and monotone in the slip rate, opposes it with non-negative dissipation, never exceeds the slip resistance and approaches it as rate over regularisation parameter grows; its Jacobian over all system pairs is the derivative of the microstress with respect to the end-of-step slips, hardening included (with the hardening's sign function regularised as the law states).",
  ["inputs","configurations"],"5 regularisations x lattice of slips, old slips, resistances, hardening parameters, time steps",
  "No test evaluates the law or its Jacobian.",
  ["source/constitutive_laws.cc","source/utilities.cc",I+"utilities.h"],
  [("ScalarMicrostressLaw","source/constitutive_laws.cc"),("sigmoid functions","source/utilities.cc")])
p("C04","Gradient microstress derives from its defect energy",
  "The vectorial microstress is the gradient of the defect energy in the slip gradient: edge and screw parts act along the system's own directions, it vanishes for zero gradient, scales with the stated power, its Jacobian is symmetric positive semi-definite and equals its derivative, and slip gradients normal to the slip plane produce no microstress; in two dimensions only the edge part exists.",
  ["inputs","configurations"],"lattice of gradients x exponents x length scales x crystals and slips, 2-D and 3-D",
  "No test evaluates the law.",
  ["source/constitutive_laws.cc"],[("VectorialMicrostressLaw","source/constitutive_laws.cc")])
p("C05","Grain-boundary microtractions are the gradient of one interface energy",
  "The microtractions on the two sides of a grain boundary are the derivatives of one non-negative interface energy (of the grain-boundary Burgers tensor) with respect to the two grains' slips: their Jacobians are symmetric and mutually transposed, identical orientations with identical slips give no traction, and swapping the two sides or reversing the normal changes nothing.",
  ["inputs","configurations"],"pairs of orientations, normals and slip vectors over a lattice, 2-D and 3-D",
  "No test evaluates the law.",
  ["source/constitutive_laws.cc"],[("MicrotractionLaw","source/constitutive_laws.cc"),("interaction moduli","source/constitutive_laws.cc")])
p("C06","Cohesive traction loads along the envelope and unloads to the origin",
  "For every opening history the cohesive traction follows the exponential envelope while the opening exceeds its historical maximum and the straight line to the origin otherwise, it is continuous, collinear with the effective opening and zero at zero opening, the stored maximum never decreases, dissipation is non-negative, and the Jacobian is the derivative of the traction with respect to the physical opening on each branch.",
  ["histories","inputs"],"all opening sequences up to depth 5 over a lattice of opening vectors x material parameters, 2-D and 3-D",
  "No test exercises loading, unloading and reloading.",
  ["source/constitutive_laws.cc",I+"quadrature_point_history.h",G+"quadrature_point_history.cc"],
  [("CohesiveLaw","source/constitutive_laws.cc"),("InterfaceQuadraturePointHistory",G+"quadrature_point_history.cc")])
p("C07","Contact acts only in penetration and degradation is a partition of unity",
  "The contact traction is zero for any opening that does not penetrate and pushes the faces apart, proportionally to the penetration and the penalty coefficient, when they do, with the matching Jacobian; the degradation function is 1 for intact and 0 for broken material, never increasing, with its exact derivative.",
  ["inputs","configurations"],"lattice of openings, normals, exponents and damage values, 2-D and 3-D",
  "No test evaluates these laws.",
  ["source/constitutive_laws.cc"],[("ContactLaw","source/constitutive_laws.cc"),("DegradationFunction","source/constitutive_laws.cc")])
# ------------------------------------------------------------------ histories
p("H01","Interface history commits, rolls back and never heals",
  "For every sequence of initialise, store, reset and update calls the interface point's damage and maximum opening equal those of a reference state machine: updates start from the last stored values (so repeating one is idempotent), reset restores them, store commits the current ones, damage stays in [0,1] and never decreases along committed updates, and the maximum opening is the largest opening seen.",
  ["histories"],"all call sequences up to depth 6 over {store, reset, update(a), update(b), copy} x both damage models",
  "The existing test performs one fixed call sequence and its result is not asserted on every prefix.",
  [I+"quadrature_point_history.h",G+"quadrature_point_history.cc"],
  [("InterfaceQuadraturePointHistory",G+"quadrature_point_history.cc")],
  ["get_damage_variable, get_max_effective_opening_displacement"])
p("H02","Slip-resistance history commits, rolls back and hardens as specified",
  "For every sequence of initialise, store, reset and update calls on a bulk integration point the slip resistances equal those of a reference state machine: each update adds the self/latent linear-hardening matrix times the absolute slip increments to the last stored values, perfect plasticity leaves them at the initial value, and every value is independent of how often an update was tried before the store.",
  ["histories"],"all call sequences up to depth 6 over {store, reset, update(slip pairs)} x hardening parameters x slip counts",
  "The existing test performs one fixed call sequence.",
  [I+"quadrature_point_history.h",G+"quadrature_point_history.cc"],
  [("QuadraturePointHistory",G+"quadrature_point_history.cc")],["get_slip_resistances"])
p("H03","A grain-boundary face has one shared history whichever side asks",
  "The interface storage hands out one set of point histories per pair of neighbouring grain-boundary cells, the same objects for either order of the two cells, distinct objects for distinct faces, at every grain-boundary face and at no other face, and their content survives later lookups.",
  ["configurations","histories"],"all crystal-id colourings of small meshes, all lookup orders of face pairs",
  "No test builds an interface storage over a multi-grain mesh.",
  [I+"quadrature_point_history.h",G+"quadrature_point_history.cc"],
  [("InterfaceDataStorage",I+"quadrature_point_history.h")])
# ------------------------------------------------------------------ line search
p("N01","The line search returns an admissible step and always terminates",
  "For every objective function the search accepts a trial only if it meets the sufficient-decrease condition, otherwise each new step length lies between a tenth and a half of the previous one and is finite, and it stops after at most the configured number of iterations; reinitialising discards every trace of the previous search and the counters report what happened.",
  ["histories","inputs"],"all sequences of trial objective values up to depth 6 over a lattice (including zero, equal and increasing values) x parameters",
  "The stable test runs three Newton iterations of one scalar function.",
  ["source/line_search.cc",I+"line_search.h"],
  [("quadratic/cubic backtracking","source/line_search.cc"),("sufficient descent condition","source/line_search.cc")],["get_lambda, suficient_descent_condition"])
# ------------------------------------------------------------------ crystal data / fields
p("X01","Crystal data are read, validated and rotated faithfully",
  "For every well-formed set of orientation, slip-direction and slip-normal files each crystal gets exactly the listed slip systems, normalised, mutually orthogonal, rotated by its own Euler angles, with orthonormal (direction, normal, orthogonal) triads, trace-free Schmid tensors and their symmetrisations, so that rotating back recovers the file; files with the wrong number of columns or rows, mismatched counts or non-orthogonal systems are rejected.",
  ["inputs","configurations"],"enumerated files (counts, angles, malformed variants) x 1..3 crystals, 2-D and 3-D",
  "The stable test reads one fixed input set and only prints it.",
  ["source/crystal_data.cc",I+"crystal_data.h"],
  [("read_and_store_data","source/crystal_data.cc"),("compute_rotation_matrices / slip systems","source/crystal_data.cc")])
p("F01","Degrees of freedom partition exactly into displacements and slips per crystal",
  "For every mesh, crystal layout, polynomial degree and decohesion setting each degree of freedom belongs to exactly one field component, slips of a crystal live only on that crystal's cells, displacement is continuous across a grain boundary exactly when decohesion is off, the displacement and slip index sets partition the unknowns, and the component queries agree with the finite element's own shape functions.",
  ["configurations"],"all crystal colourings of small meshes x degrees x slip counts x decohesion, 2-D and 3-D",
  "No test inspects the degree-of-freedom layout.",
  ["source/fe_field.cc",I+"fe_field.h"],
  [("setup_extractors / setup_dofs","source/fe_field.cc"),("component mapping",I+"fe_field.h")])
p("F02","Field vectors rotate, constrain and measure consistently",
  "Advancing the solution vectors shifts current, old and older solutions by exactly one step without loss, constraints set by a user override the field's own and resetting restores them, field copies are independent of their source, and the displacement and slip norms reported are the Euclidean norms of the corresponding disjoint parts (constrained entries included once), whose squares add up to that of the total norm.",
  ["histories","configurations"],"all operation sequences up to depth 5 over {advance, assign, constrain, reset, copy} on small fields",
  "No test checks any of these operations.",
  ["source/fe_field.cc",I+"fe_field.h"],
  [("update_solution_vectors","source/fe_field.cc"),("constraint handling","source/fe_field.cc"),("get_sub_l2_norms","source/fe_field.cc")])
# ------------------------------------------------------------------ loading / parameters
p("L01","Load stepping covers the programme exactly once",
  "For every valid loading specification the time steps are positive and end exactly at the end time, a cyclic programme hits the start of each phase and every load reversal, the number of steps per phase is the configured one, and start-value extrapolation is skipped exactly at the steps where the loading rate changes.",
  ["configurations","histories"],"all combinations of loading type, cycle count, steps per phase and durations in a lattice, every step",
  "No test uses cyclic loading.",
  ["source/run_time_parameters.cc",I+"run_time_parameters.h","applications/simple_shear.cc"],
  [("SimpleLoading::get_next_time_step_size / skip_extrapolation","source/run_time_parameters.cc")])
p("L02","The applied boundary displacement is the specified loading",
  "The displacement-control boundary function returns at every point and time the loading specified by the parameters, in the shear direction only, for each crystal's own copy of the displacement when decohesion is on, with zero for every other component: monotonic loading grows in proportion to time (height x maximum load x time); cyclic loading ramps to the mean, oscillates sinusoidally between minimum and maximum with the given period, and unloads to zero. The load-control traction follows the same programme.",
  ["configurations","inputs"],"loading types x load steps x component layouts, all components, 2-D and 3-D",
  "No test evaluates the boundary functions.",
  ["source/boundary_conditions.cc",I+"boundary_conditions.h"],
  [("DisplacementControl::vector_value","source/boundary_conditions.cc")])
p("R01","Parameter files are accepted or rejected as documented and round-trip",
  "Every documented parameter takes effect in the field it names, defaults apply when it is absent, a written default file parses back to the same parameters, and a value outside its documented range (or an inconsistent pair such as tolerances in the wrong order) is rejected instead of being silently accepted or altered.",
  ["inputs","configurations"],"every declared parameter x {default, alternative, out-of-range} values",
  "No test parses more than the shipped file.",
  ["source/run_time_parameters.cc",I+"run_time_parameters.h"],
  [("declare_parameters / parse_parameters","source/run_time_parameters.cc")])
p("R02","Characteristic quantities are dimensionally consistent",
  "The derived characteristic strain, stress, displacement-like and traction-like quantities and dimensionless groups obey their defining products, are exactly one for a unit reference set, and scale with the right powers when a base quantity is rescaled.",
  ["inputs"],"lattice of base quantities over several decades",
  "No test evaluates them.",
  ["source/run_time_parameters.cc"],[("DimensionlessForm::init","source/run_time_parameters.cc")])
# ------------------------------------------------------------------ output
p("O01","Output fields report the solved state",
  "At every evaluation point the postprocessor's named outputs equal the displacement, slips, equivalent plastic measures, dislocation-density measures, stresses and strains computed independently from the solution, in the order and with the number of components its names declare and in physical units, for both dimensions, any crystal and slip count, with decohesion on or off.",
  ["inputs","configurations"],"enumerated affine displacement and slip fields x crystals x options, all output components",
  "No test evaluates the postprocessor.",
  ["source/postprocessing.cc",I+"postprocessing.h"],
  [("Postprocessor::evaluate_vector_field / get_names","source/postprocessing.cc")])
p("O02","Macroscopic quantities are the volume and boundary averages",
  "The homogenised stresses and strains and the reported boundary shear stress equal the integral averages of the microscopic fields over the domain or its boundary (independently of the mesh, the number of crystals and the domain's size), and the shear angle reported for the upper boundary is the one prescribed there.",
  ["inputs","configurations"],"enumerated affine and piecewise states x meshes and domain sizes",
  "No test evaluates these averages.",
  ["source/postprocessing.cc",I+"postprocessing.h"],
  [("Homogenization","source/postprocessing.cc"),("SimpleShear","source/postprocessing.cc")])
p("O03","The log reproduces exactly the values given to it",
  "For every sequence of column declarations, value updates and row logs, the text file holds a header with each declared column once in declaration order and one row per log call whose cells parse back to the values in force at that call with the declared precision; an undeclared or twice-declared column is rejected.",
  ["histories"],"all call sequences up to depth 5 over {declare, update, log, header} x value lattice",
  "No test exercises the logger.",
  ["source/postprocessing.cc","source/utilities.cc",I+"utilities.h",I+"postprocessing.h"],
  [("Logger","source/utilities.cc")])
p("A01","The simple-shear problem constrains exactly the intended unknowns",
  "In the simple-shear application, for every admissible combination of dimension, degree, crystal count, decohesion and boundary-condition option, the lower boundary is fixed and the upper carries the prescribed shear, lateral faces are periodically coupled, micro-hard boundaries and grain boundaries fix the slips there and nothing else, micro-free ones leave them free, and no other unknown is constrained.",
  ["configurations"],"all option combinations in the enumerated space, every degree of freedom",
  "The application is not run by any test.",
  ["applications/simple_shear.cc","source/fe_field.cc"],
  [("setup_constraints / make_grid","applications/simple_shear.cc")])
p("A02","A simple-shear run is complete, self-consistent and reproducible",
  "A run of the application performs every load step up to the end time, writes graphical output exactly at the steps of the configured cadence and at the last step, into the configured directory and nowhere else, tabulates the applied shear of every step and the homogenised quantities at their own cadence (whose average shear strain is the applied one while the displacement is continuous), and writes finite fields that meet the prescribed boundary displacements. Repeating the run from the parameter file it stored, over old results, gives the same files and leaves files of the user alone; running it on several processes gives the same tables and fields.",
  ["configurations","histories"],"enumerated output cadences, loadings and step counts",
  "The application is not run by any test.",
  ["applications/simple_shear.cc","source/postprocessing.cc",G+"solve.cc"],
  [("run loop / postprocessing / data_output","applications/simple_shear.cc")])
p("U01","Tensor and index helpers agree with their definitions",
  "The Macaulay bracket, sign, regularised sign, rotation-tensor, Voigt and principal-index helpers and file comparisons return what their definition says for every argument in their domain, including zero, negative and boundary values.",
  ["inputs"],"lattice of arguments incl. special values, all index tuples",
  "No test calls them on boundary values.",
  ["source/utilities.cc",I+"utilities.h"],[("Utilities","source/utilities.cc")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
