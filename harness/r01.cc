// R01: every declared parameter x {absent, alternatives, invalid values}: the named field and only it changes,
// invalid values and inconsistent pairs are rejected, files round-trip.
#include "gcp_util.h"
#include <gCP/run_time_parameters.h>
#include <filesystem>
using namespace vp;
using namespace gCP::RunTimeParameters;
namespace fs = std::filesystem;
using Dump = std::map<std::string, std::string>;
template <typename T> static std::string show(const T &v)
{
  if constexpr (std::is_same_v<T, std::string>) return v;
  else if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
  else if constexpr (std::is_enum_v<T>) return "#" + std::to_string((int)v);
  else return num((double)v);
}
static void nonlinear(Dump &d, const std::string &p, const NonlinearSystemSolverParameters &s)
{
#define F(x) d[p + #x] = show(s.x)
  F(krylov_parameters.solver_type); F(krylov_parameters.relative_tolerance); F(krylov_parameters.absolute_tolerance); F(krylov_parameters.n_max_iterations);
  F(newton_parameters.relative_tolerance); F(newton_parameters.absolute_tolerance); F(newton_parameters.step_tolerance); F(newton_parameters.n_max_iterations); F(newton_parameters.flag_line_search);
  F(line_search_parameters.alpha); F(line_search_parameters.beta); F(line_search_parameters.n_max_iterations);
#undef F
}
static Dump basic(const BasicProblem &s)
{
  Dump d;
#define F(x) d[#x] = show(s.x)
  F(verbose);
  F(spatial_discretization.dim); F(spatial_discretization.fe_degree_displacements); F(spatial_discretization.fe_degree_slips); F(spatial_discretization.n_global_refinements); F(spatial_discretization.mapping_degree); F(spatial_discretization.flag_apply_mapping_to_interior_cells);
  F(temporal_discretization_parameters.start_time); F(temporal_discretization_parameters.end_time); F(temporal_discretization_parameters.time_step_size);
  F(input.slips_normals_pathname); F(input.slips_directions_pathname); F(input.euler_angles_pathname);
  F(output.output_directory); F(output.graphical_output_frequency); F(output.terminal_output_frequency); F(output.flag_output_damage_variable); F(output.flag_output_fluctuations); F(output.flag_output_dimensionless_quantities);
  F(homogenization.homogenization_frequency); F(homogenization.flag_compute_homogenized_quantities);
#undef F
  const auto &q = s.solver_parameters;
#define F(x) d[#x] = show(q.x)
  F(solution_algorithm); F(allow_decohesion); F(boundary_conditions_at_grain_boundaries); F(logger_output_directory); F(flag_skip_extrapolation); F(flag_skip_extrapolation_at_extrema); F(extrapolation_factor);
  F(flag_zero_damage_during_loading_and_unloading); F(flag_output_debug_fields); F(print_sparsity_pattern);
  d["solver.verbose"] = show(q.verbose);
  F(monolithic_algorithm_parameters.monolithic_preconditioner); F(staggered_algorithm_parameters.max_n_solution_loops); F(staggered_algorithm_parameters.flag_reset_trial_solution_at_micro_loop);
  nonlinear(d, "mono.", q.monolithic_algorithm_parameters.monolithic_system_solver_parameters);
  nonlinear(d, "lmb.", q.staggered_algorithm_parameters.linear_momentum_solver_parameters);
  nonlinear(d, "pb.", q.staggered_algorithm_parameters.pseudo_balance_solver_parameters);
  F(dimensionless_form_parameters.flag_solve_dimensionless_problem);
#define Q(x) d[#x] = show(q.dimensionless_form_parameters.characteristic_quantities.x)
  Q(length); Q(time); Q(displacement); Q(stiffness); Q(slip_resistance); Q(strain); Q(stress); Q(resolved_shear_stress); Q(macro_traction); Q(micro_traction); Q(body_force); Q(dislocation_density);
  for (int i = 0; i < 4; ++i) d["number" + std::to_string(i)] = show(q.dimensionless_form_parameters.dimensionless_numbers[i]);
#undef F
  const auto &c = q.constitutive_laws_parameters;
#define F(x) d[#x] = show(c.x)
  F(hooke_law_parameters.C1111); F(hooke_law_parameters.C1122); F(hooke_law_parameters.C1212);
  F(scalar_microstress_law_parameters.regularization_function); F(scalar_microstress_law_parameters.regularization_parameter); F(scalar_microstress_law_parameters.flag_rate_independent);
  F(vectorial_microstress_law_parameters.energetic_length_scale); F(vectorial_microstress_law_parameters.initial_slip_resistance); F(vectorial_microstress_law_parameters.defect_energy_index); F(vectorial_microstress_law_parameters.regularization_parameter);
  F(microtraction_law_parameters.grain_boundary_modulus);
  F(cohesive_law_parameters.cohesive_law_model); F(cohesive_law_parameters.critical_cohesive_traction); F(cohesive_law_parameters.critical_opening_displacement); F(cohesive_law_parameters.tangential_to_normal_stiffness_ratio);
  F(contact_law_parameters.penalty_coefficient);
  F(hardening_law_parameters.initial_slip_resistance); F(hardening_law_parameters.linear_hardening_modulus); F(hardening_law_parameters.hardening_parameter); F(hardening_law_parameters.flag_perfect_plasticity);
  F(degradation_function_parameters.degradation_exponent);
  F(damage_evolution_parameters.damage_evolution_model); F(damage_evolution_parameters.damage_accumulation_constant); F(damage_evolution_parameters.damage_decay_constant); F(damage_evolution_parameters.damage_decay_exponent); F(damage_evolution_parameters.endurance_limit);
  F(damage_evolution_parameters.flag_couple_microtraction_to_damage); F(damage_evolution_parameters.flag_couple_macrotraction_to_damage); F(damage_evolution_parameters.flag_set_damage_to_zero);
#undef F
  return d;
}
static Dump dump(const InfiniteStripProblem &s)
{
  Dump d = basic(s);
#define F(x) d[#x] = show(s.x)
  F(control_type); F(height); F(n_elements_in_y_direction); F(n_equal_sized_crystals);
  F(simple_loading.loading_type); F(simple_loading.max_load); F(simple_loading.min_load); F(simple_loading.duration_monotonic_load); F(simple_loading.n_steps_monotonic_load); F(simple_loading.time_step_size_monotonic_load);
  F(simple_loading.duration_loading_and_unloading_phase); F(simple_loading.n_steps_loading_and_unloading_phase); F(simple_loading.time_step_size_loading_and_unloading_phase); F(simple_loading.n_cycles); F(simple_loading.period); F(simple_loading.n_steps_quarter_period);
  F(simple_loading.time_step_size_cyclic_phase); F(simple_loading.flag_skip_unloading_phase); F(simple_loading.start_of_cyclic_phase); F(simple_loading.start_of_unloading_phase); F(simple_loading.end_time); F(simple_loading.start_time);
#undef F
  return d;
}
static Dump dump(const SemicoupledParameters &s)
{
  Dump d = basic(s);
#define F(x) d[#x] = show(s.x)
  F(strain_component_11); F(strain_component_22); F(strain_component_33); F(strain_component_23); F(strain_component_13); F(strain_component_12); F(min_to_max_strain_load_ratio); F(msh_file_pathname);
#undef F
  return d;
}

struct Alt { std::string text, value; };
struct Entry
{
  std::string path, name, field, def;
  std::vector<Alt> alts;
  std::vector<std::string> bad;
  std::string context = "";
  std::set<std::string> derived = {};
};
static std::string n_(double v) { return num(v); }
static std::string line(const std::string &path, const std::string &name, const std::string &value)
{
  std::string s, e;
  std::istringstream in(path);
  std::string p;
  while (std::getline(in, p, '/')) { s += "subsection " + p + "\n"; e += "end\n"; }
  return s + "set " + name + " = " + value + "\n" + e;
}
static std::vector<Alt> numbers(std::initializer_list<double> l)
{
  std::vector<Alt> r;
  for (double v : l) r.push_back({num(v), num(v)});
  return r;
}
static const std::vector<Alt> B = {{"true", "true"}, {"false", "false"}};

static std::vector<Entry> entries()
{
  std::vector<Entry> E;
  const std::string S = "6. Solver parameters", C = S + "/Constitutive laws' parameters", X = "1. Spatial discretization parameters", T = "2. Temporal discretization parameters", O = "4. Output parameters", D = S + "/Dimensionless formulation parameters";
  auto real = [&](const std::string &p, const std::string &n, const std::string &f, double def, std::vector<Alt> alts, std::vector<std::string> bad = {"-1", "-1e-9", "abc"}, const std::string &ctx = "", std::set<std::string> der = {}) {
    E.push_back({p, n, f, num(def), alts, bad, ctx, der});
  };
  auto boolean = [&](const std::string &p, const std::string &n, const std::string &f, bool def, const std::string &ctx = "", std::set<std::string> der = {}) { E.push_back({p, n, f, def ? "true" : "false", B, {"maybe", "2"}, ctx, der}); };
  auto sel = [&](const std::string &p, const std::string &n, const std::string &f, int def, std::vector<Alt> alts, std::set<std::string> der = {}) { E.push_back({p, n, f, "#" + std::to_string(def), alts, {"nonsense", "1"}, "", der}); };
  auto en = [](auto v) { return "#" + std::to_string((int)v); };
  const std::vector<std::string> pos = {"0", "-1", "abc"}, neg = {"-1", "-0.001", "x"}, i0 = {"-1", "1.5", "x"}, i1 = {"0", "-1", "1.5"};
  // spatial
  real(X, "Spatial dimension", "spatial_discretization.dim", 2, numbers({2, 3}), {"1", "4", "0", "2.5"});
  real(X, "Mapping - Polynomial degree", "spatial_discretization.mapping_degree", 1, numbers({1, 2, 3}), i1);
  boolean(X, "Mapping - Apply to interior cells", "spatial_discretization.flag_apply_mapping_to_interior_cells", false);
  real(X, "Number of global refinements", "spatial_discretization.n_global_refinements", 0, numbers({0, 1, 4}), i0);
  real(X, "FE's polynomial degree - Displacements", "spatial_discretization.fe_degree_displacements", 2, numbers({1, 2, 3}), i1);
  real(X, "FE's polynomial degree - Slips", "spatial_discretization.fe_degree_slips", 1, numbers({1, 2}), i1);
  const std::string XP = X + "/Problem specific parameters";
  real(XP, "Height of the strip", "height", 1., numbers({0.01, 1., 25.}), pos);
  real(XP, "Number of elements in y-direction", "n_elements_in_y_direction", 100, numbers({1, 7, 1000}), i1);
  real(XP, "Number of equally sized crystals in y-direction", "n_equal_sized_crystals", 1, numbers({1, 2, 5}), i1);
  // temporal
  real(T, "Start time", "temporal_discretization_parameters.start_time", 0., numbers({0., 0.25}), {"-1", "1", "2", "0.95"});
  real(T, "End time", "temporal_discretization_parameters.end_time", 1., numbers({0.1, 2., 1000.}), {"-1", "0", "0.05"});
  real(T, "Time step size", "temporal_discretization_parameters.time_step_size", 0.1, numbers({1., 0.001}), {"-1", "0", "1.5"});
  const std::string L = T + "/Simple loading", LM = L + "/Monotonic load parameters", LC = L + "/Cyclic load parameters";
  const std::set<std::string> te = {"simple_loading.end_time", "simple_loading.start_of_cyclic_phase", "simple_loading.start_of_unloading_phase", "simple_loading.time_step_size_monotonic_load", "simple_loading.time_step_size_loading_and_unloading_phase", "simple_loading.time_step_size_cyclic_phase"};
  const std::string cyc = line(L, "Loading type", "cyclic");
  sel(L, "Loading type", "simple_loading.loading_type", (int)LoadingType::Monotonic, {{"monotonic", en(LoadingType::Monotonic)}, {"cyclic", en(LoadingType::Cyclic)}}, te);
  real(L, "Maximum load", "simple_loading.max_load", 1., numbers({0.01, 1., 30.}), {"-1", "0", "abc"});
  real(L, "Minimum load", "simple_loading.min_load", 0., numbers({0., 0.5}), {"-1", "1", "2", "abc"});
  real(LM, "Duration of monotonic load", "simple_loading.duration_monotonic_load", 1., numbers({0.5, 7.}), pos, "", te);
  real(LM, "Number of steps during monotonic load", "simple_loading.n_steps_monotonic_load", 20, numbers({1, 1000}), i1, "", te);
  real(LC, "Duration of un- and loading phase", "simple_loading.duration_loading_and_unloading_phase", 1., numbers({0.5, 7.}), pos, cyc, te);
  real(LC, "Number of steps during un- and loading phase", "simple_loading.n_steps_loading_and_unloading_phase", 20, numbers({1, 1000}), i1, cyc, te);
  real(LC, "Period", "simple_loading.period", 1., numbers({0.5, 7.}), pos, cyc, te);
  real(LC, "Number of steps during a quarter cycle", "simple_loading.n_steps_quarter_period", 5, numbers({1, 100}), i1, cyc, te);
  real(LC, "Number of cycles", "simple_loading.n_cycles", 1, numbers({0, 1, 20}), i0, cyc, te);
  boolean(LC, "Skip unloading phase", "simple_loading.flag_skip_unloading_phase", true, cyc, te);
  sel("0. Infinite strip parameters (Extended in 1. and 2.)/Loading parameters", "Control type", "control_type", (int)ControlType::Displacement, {{"load_control", en(ControlType::Load)}, {"displacement_control", en(ControlType::Displacement)}});
  // input, output
  E.push_back({"3. Input parameters", "Slip normals path name", "input.slips_normals_pathname", "input/crystal_structure/symmetric_double_slip_system/slip_normals", {{"a/b/normals", "a/b/normals"}}, {}});
  E.push_back({"3. Input parameters", "Slip directions path name", "input.slips_directions_pathname", "input/crystal_structure/symmetric_double_slip_system/slip_directions", {{"a/b/dirs", "a/b/dirs"}}, {}});
  E.push_back({"3. Input parameters", "Euler angles path name", "input.euler_angles_pathname", "input/crystal_orientation/euler_angles_0_30", {{"a/angles", "a/angles"}}, {}});
  E.push_back({O, "Graphical output directory", "output.output_directory", "results/default/", {{"out/run1/", "out/run1/"}, {"out/run2", "out/run2/"}, {"deep/er/path/", "deep/er/path/"}}, {}, "", {"logger_output_directory"}});
  real(O, "Graphical output frequency", "output.graphical_output_frequency", 1, numbers({1, 2, 100}), i1);
  real(O, "Terminal output frequency", "output.terminal_output_frequency", 1, numbers({1, 2, 100}), {"-1", "1.5", "x"});
  boolean(O, "Output damage variable field", "output.flag_output_damage_variable", false);
  boolean(O, "Output dimensionless quantities", "output.flag_output_dimensionless_quantities", false);
  boolean(O, "Output fluctuations fields", "output.flag_output_fluctuations", false);
  boolean("5. Postprocessing parameters/Homogenization", "Compute homogenized quantities", "homogenization.flag_compute_homogenized_quantities", false);
  real("5. Postprocessing parameters/Homogenization", "Homogenization frequency", "homogenization.homogenization_frequency", 1, numbers({1, 3}), i1);
  boolean("", "Verbose", "verbose", false);
  // solver
  std::set<std::string> algo;
  {
    Dump d;
    nonlinear(d, "mono.", NonlinearSystemSolverParameters());
    nonlinear(d, "lmb.", NonlinearSystemSolverParameters());
    nonlinear(d, "pb.", NonlinearSystemSolverParameters());
    for (auto &p : d) algo.insert(p.first);
    algo.insert({"monolithic_algorithm_parameters.monolithic_preconditioner", "staggered_algorithm_parameters.max_n_solution_loops", "staggered_algorithm_parameters.flag_reset_trial_solution_at_micro_loop"});
  }
  sel(S, "Solution algorithm", "solution_algorithm", (int)SolutionAlgorithm::Monolithic, {{"monolithic", en(SolutionAlgorithm::Monolithic)}, {"bouncing", en(SolutionAlgorithm::Bouncing)}, {"embracing", en(SolutionAlgorithm::Embracing)}}, algo);
  boolean(S, "Allow decohesion at grain boundaries", "allow_decohesion", false);
  sel(S, "Boundary conditions at grain boundaries", "boundary_conditions_at_grain_boundaries", (int)BoundaryConditionsAtGrainBoundaries::Microfree,
      {{"microhard", en(BoundaryConditionsAtGrainBoundaries::Microhard)}, {"microfree", en(BoundaryConditionsAtGrainBoundaries::Microfree)}, {"microtraction", en(BoundaryConditionsAtGrainBoundaries::Microtraction)}});
  boolean(S, "Skip extrapolation of start value", "flag_skip_extrapolation", false);
  boolean(S, "Skip extrapolation of start value at extrema", "flag_skip_extrapolation_at_extrema", false);
  real(S, "Extrapolation factor", "extrapolation_factor", 1., numbers({0., 0.5, 2.}), neg);
  boolean(S, "Zero damage evolution during un- and loading", "flag_zero_damage_during_loading_and_unloading", false);
  boolean(S, "Print sparsity pattern", "print_sparsity_pattern", false);
  boolean(S, "Output debug fields", "flag_output_debug_fields", false);
  boolean(S, "Verbose", "solver.verbose", false);
  // dimensionless form
  const std::string dl = line(D, "Solve the dimensionless problem", "true");
  const std::set<std::string> dd = {"strain", "stress", "resolved_shear_stress", "macro_traction", "micro_traction", "body_force", "dislocation_density", "number0", "number1", "number2", "number3"};
  boolean(D, "Solve the dimensionless problem", "dimensionless_form_parameters.flag_solve_dimensionless_problem", false, "", dd);
  for (auto p : {std::pair<const char *, const char *>{"Reference length value", "length"}, {"Reference time value", "time"}, {"Reference displacement value", "displacement"}, {"Reference stiffness value", "stiffness"}, {"Reference slip resistance value", "slip_resistance"}})
    real(D + "/Reference parameters", p.first, p.second, 1., numbers({1., 0.02, 28500.}), neg, dl, dd);
  // algorithms
  const std::string stag = line(S, "Solution algorithm", "bouncing"), emb = line(S, "Solution algorithm", "embracing");
  for (auto &q : {std::array<std::string, 3>{S + "/Monolithic algorithm", "mono.", ""}, {S + "/Staggered algorithm/Linear momentum balance", "lmb.", stag}, {S + "/Staggered algorithm/Pseudo-balance", "pb.", emb}})
    {
      const std::string K = q[0] + "/Krylov parameters", N = q[0] + "/Newton-Raphson parameters", LS = q[0] + "/Line search parameters";
      E.push_back({K, "Solver type", q[1] + "krylov_parameters.solver_type", en(SolverType::CG), {{"directsolver", en(SolverType::DirectSolver)}, {"cg", en(SolverType::CG)}, {"gmres", en(SolverType::GMRES)}}, {"lu", "1"}, q[2]});
      real(K, "Relative tolerance", q[1] + "krylov_parameters.relative_tolerance", 1e-6, numbers({1e-3, 2e-8}), {"0", "-1", "1e-8", "1e-9"}, q[2]);
      real(K, "Absolute tolerance", q[1] + "krylov_parameters.absolute_tolerance", 1e-8, numbers({1e-12, 5e-7}), {"0", "-1", "1e-6", "1e-3"}, q[2]);
      real(K, "Maximum number of iterations", q[1] + "krylov_parameters.n_max_iterations", 1000, numbers({1, 50}), i1, q[2]);
      real(N, "Relative tolerance of the residual", q[1] + "newton_parameters.relative_tolerance", 1e-6, numbers({1e-3, 2e-8}), {"0", "-1", "1e-8", "1e-9"}, q[2]);
      real(N, "Absolute tolerance of the residual", q[1] + "newton_parameters.absolute_tolerance", 1e-8, numbers({1e-12, 5e-7}), {"0", "-1", "1e-6", "1e-3"}, q[2]);
      real(N, "Absolute tolerance of the step", q[1] + "newton_parameters.step_tolerance", 1e-8, numbers({1e-12, 0.5}), {"-1", "x"}, q[2]);
      real(N, "Maximum number of iterations", q[1] + "newton_parameters.n_max_iterations", 15, numbers({1, 50}), i1, q[2]);
      boolean(N, "Line search algorithm", q[1] + "newton_parameters.flag_line_search", true, q[2]);
      real(LS, "Alpha condition constant", q[1] + "line_search_parameters.alpha", 1e-4, numbers({1e-2, 0.5}), {"0", "-1", "0.9", "0.95", "1.5"}, q[2]);
      real(LS, "Beta condition constant", q[1] + "line_search_parameters.beta", 0.9, numbers({1e-2, 0.5}), {"0", "-1", "1e-4", "1", "1.5"}, q[2]);
      real(LS, "Maximum number of iterations", q[1] + "line_search_parameters.n_max_iterations", 15, numbers({0, 1, 50}), i0, q[2]);
    }
  E.push_back({S + "/Monolithic algorithm", "Monolithic preconditioner", "monolithic_algorithm_parameters.monolithic_preconditioner", en(MonolithicPreconditioner::BuiltIn), {{"built-in", en(MonolithicPreconditioner::BuiltIn)}}, {"none", "block"}});
  real(S + "/Staggered algorithm", "Maximum number of solution loops", "staggered_algorithm_parameters.max_n_solution_loops", 15, numbers({2, 100}), {"1", "0", "-1", "2.5"}, stag);
  boolean(S + "/Staggered algorithm", "Reset trial solution at each micro loop", "staggered_algorithm_parameters.flag_reset_trial_solution_at_micro_loop", true, emb);
  // constitutive laws
  auto law = [&](const std::string &sec, const std::string &n, const std::string &f, double def, std::vector<Alt> alts, std::vector<std::string> bad, const std::string &ctx = "", std::set<std::string> der = {}) { real(C + "/" + sec, n, f, def, alts, bad, ctx, der); };
  law("Hooke-Law's parameters", "C1111", "hooke_law_parameters.C1111", 134615., numbers({10., 2e5}), pos);
  law("Hooke-Law's parameters", "C1122", "hooke_law_parameters.C1122", 57692.3, numbers({10., 5e4}), pos);
  law("Hooke-Law's parameters", "C1212", "hooke_law_parameters.C1212", 38461.5, numbers({10., 5e4}), pos);
  sel(C + "/Scalar microstress law's parameters", "Regularization function", "scalar_microstress_law_parameters.regularization_function", (int)RegularizationFunction::Tanh,
      {{"atan", en(RegularizationFunction::Atan)}, {"sqrt", en(RegularizationFunction::Sqrt)}, {"gd", en(RegularizationFunction::Gd)}, {"tanh", en(RegularizationFunction::Tanh)}, {"erf", en(RegularizationFunction::Erf)}});
  law("Scalar microstress law's parameters", "Regularization parameter", "scalar_microstress_law_parameters.regularization_parameter", 3e-4, numbers({1e-6, 2.}), pos);
  boolean(C + "/Scalar microstress law's parameters", "Rate-independent behavior", "scalar_microstress_law_parameters.flag_rate_independent", false);
  const std::string V = "Vectorial microstress law's parameters", H = "Hardening law's parameters";
  law(V, "Energetic length scale", "vectorial_microstress_law_parameters.energetic_length_scale", 0., numbers({0.1, 3.}), neg);
  law(V, "Initial slip resistance", "vectorial_microstress_law_parameters.initial_slip_resistance", 0., numbers({60., 0.5}), {"-1", "10"}, "");
  law(V, "Defect energy index", "vectorial_microstress_law_parameters.defect_energy_index", 2., numbers({1., 1.5, 3.}), {"0.9", "0", "-1"});
  law(V, "Regularization parameter", "vectorial_microstress_law_parameters.regularization_parameter", 1e-6, numbers({1e-3, 1.}), pos);
  law("Microtraction law's parameters", "Grain boundary modulus", "microtraction_law_parameters.grain_boundary_modulus", 0., numbers({1., 1e3}), neg);
  sel(C + "/Cohesive law's parameters", "Cohesive law model", "cohesive_law_parameters.cohesive_law_model", (int)CohesiveLawModel::OrtizEtAl, {{"OrtizEtAl", en(CohesiveLawModel::OrtizEtAl)}});
  law("Cohesive law's parameters", "Critical cohesive traction", "cohesive_law_parameters.critical_cohesive_traction", 700., numbers({1., 55.}), neg);
  law("Cohesive law's parameters", "Critical opening displacement", "cohesive_law_parameters.critical_opening_displacement", 2.5e-2, numbers({1., 55.}), neg);
  law("Cohesive law's parameters", "Tangential to normal stiffness ratio", "cohesive_law_parameters.tangential_to_normal_stiffness_ratio", 1., numbers({0., 0.5}), neg);
  law("Contact law's parameters", "Penalty coefficient", "contact_law_parameters.penalty_coefficient", 100., numbers({0., 1e4}), neg);
  law("Degradation function parameters", "Degradation exponent", "degradation_function_parameters.degradation_exponent", 1., numbers({0., 2.}), neg);
  law(H, "Initial slip resistance", "hardening_law_parameters.initial_slip_resistance", 0., numbers({60., 0.5}), {"-1", "10"}, "");
  law(H, "Linear hardening modulus", "hardening_law_parameters.linear_hardening_modulus", 500., numbers({0., 10.}), neg);
  law(H, "Hardening parameter", "hardening_law_parameters.hardening_parameter", 1.4, numbers({0., 1.}), neg);
  boolean(C + "/" + H, "Perfect plasticity", "hardening_law_parameters.flag_perfect_plasticity", false);
  const std::string DE = "Damage evolution parameters";
  sel(C + "/" + DE, "Damage evolution model", "damage_evolution_parameters.damage_evolution_model", (int)DamageEvolutionModel::M1, {{"M1", en(DamageEvolutionModel::M1)}, {"OrtizEtAl", en(DamageEvolutionModel::OrtizEtAl)}});
  law(DE, "Damage accumulation constant", "damage_evolution_parameters.damage_accumulation_constant", 1., numbers({0., 10.}), neg);
  law(DE, "Damage decay constant", "damage_evolution_parameters.damage_decay_constant", 0., numbers({0., 10.}), neg);
  law(DE, "Damage decay exponent", "damage_evolution_parameters.damage_decay_exponent", 1., numbers({0., 10.}), neg);
  law(DE, "Endurance limit", "damage_evolution_parameters.endurance_limit", 0., numbers({0., 10.}), neg);
  boolean(C + "/" + DE, "Set damage to zero", "damage_evolution_parameters.flag_set_damage_to_zero", false);
  boolean(C + "/" + DE, "Couple microtraction to damage", "damage_evolution_parameters.flag_couple_microtraction_to_damage", true);
  boolean(C + "/" + DE, "Couple macrotraction to damage", "damage_evolution_parameters.flag_couple_macrotraction_to_damage", false);
  return E;
}

static std::string parse(const std::string &text, Dump &d, std::string *copy = nullptr)
{
  const std::string file = "case.prm";
  { std::ofstream o(file); o << text; }
  std::string err;
  try
    {
      InfiniteStripProblem p(file);
      d = dump(p);
      if (copy)
        {
          std::ifstream in(p.output.output_directory + "parameter_file.prm");
          std::stringstream ss;
          ss << in.rdbuf();
          *copy = ss.str();
        }
    }
  catch (std::exception &e) { err = e.what(); if (err.empty()) err = "exception"; }
  return err;
}
static std::string diff(const Dump &a, const Dump &b)
{
  std::string s;
  for (auto &p : a) { auto it = b.find(p.first); if (it == b.end() || it->second != p.second) s += p.first + ": " + p.second + " vs " + (it == b.end() ? "-" : it->second) + "; "; }
  return s;
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  std::string workdir = ex.workdir;
  if (chdir(workdir.c_str())) return 3;
  auto E = entries();
  // companion settings for the two entries that have to agree
  auto with = [&](const Entry &e, const std::string &v, bool companion) {
    std::string t = e.context + line(e.path, e.name, v);
    if (companion && e.name == "Initial slip resistance")
      t += line(e.path.find("Hardening") != std::string::npos ? "6. Solver parameters/Constitutive laws' parameters/Vectorial microstress law's parameters" : "6. Solver parameters/Constitutive laws' parameters/Hardening law's parameters", e.name, v);
    return t;
  };
  Dump defaults;
  const std::string de = parse("", defaults);
  if (ex.begin("defaults"))
    {
      ex.check(de.empty(), "defaults-rejected", de.substr(0, 500));
      for (auto &e : E)
        {
          Dump d;
          std::string err = e.context.empty() ? "" : parse(e.context, d);
          if (e.context.empty()) d = defaults;
          ex.check(err.empty() && d[e.field] == e.def, "default", e.path + "/" + e.name + ": default of " + e.field + " is " + d[e.field] + ", declared " + e.def + err.substr(0, 200));
          ex.transition();
        }
      // a template is written for a missing file, and parses back to the defaults
      fs::remove("missing.prm");
      bool threw = false;
      try { InfiniteStripProblem p("missing.prm"); } catch (std::exception &) { threw = true; }
      ex.check(threw && fs::exists("missing.prm"), "template", "no template or no error for a missing parameter file");
      Dump t;
      { std::ifstream in("missing.prm"); std::stringstream ss; ss << in.rdbuf(); const std::string err = parse(ss.str(), t); ex.check(err.empty() && t == defaults, "template-round-trip", err.substr(0, 300) + diff(t, defaults)); }
      for (std::string bad : {"set No such parameter = 1\n", "subsection 6. Solver parameters\nset C1111 = 3\nend\n", "subsection 6. Solver parameters\nset Verbose = true\n", "nonsense\n"})
        { Dump d; ex.check(!parse(bad, d).empty(), "unknown-accepted", bad); }
      { // the shipped file is accepted
        Dump d;
        std::ifstream in(std::string(VP_REPO) + "/input/parameter_files/simple_shear.prm");
        std::stringstream ss;
        ss << in.rdbuf();
        const std::string err = parse(ss.str(), d);
        ex.check(err.empty(), "shipped-rejected", err.substr(0, 400));
      }
      ex.trace();
      ex.end();
    }
  for (auto &e : E)
    {
      for (auto &a : e.alts)
        {
          const std::string key = "set " + e.path + "/" + e.name + " = " + a.text;
          if (!ex.begin(key)) continue;
          Dump base, d, r;
          if (e.context.empty()) base = defaults;
          else parse(e.context, base);
          std::string copy;
          const std::string err = parse(with(e, a.text, true), d, &copy);
          if (ex.check(err.empty(), "valid-rejected", err.substr(0, 500)))
            {
              ex.check(d[e.field] == a.value, "field", e.field + " is " + d[e.field] + ", expected " + a.value);
              for (auto &p : d)
                {
                  if (p.first == e.field || e.derived.count(p.first)) continue;
                  if (e.name == "Initial slip resistance" && p.first.find("initial_slip_resistance") != std::string::npos) { ex.check(p.second == a.value, "field", p.first); continue; }
                  ex.check(p.second == base[p.first], "other-field", "setting " + e.name + " changed " + p.first + " from " + base[p.first] + " to " + p.second);
                }
              if (e.name == "Graphical output directory")
                {
                  ex.check(d["logger_output_directory"] == a.value, "log-directory", "the log goes to " + d["logger_output_directory"]);
                  ex.check(fs::is_directory(a.value + "paraview"), "directory", "no directory " + a.value + "paraview");
                  for (auto &x : fs::recursive_directory_iterator(".")) ex.check(x.path().string().find("run2paraview") == std::string::npos && x.path().string().find("run2parameter") == std::string::npos, "outside-directory", x.path().string());
                }
              const std::string e2 = parse(copy, r);
              ex.check(!copy.empty() && e2.empty() && r == d, "round-trip", e2.substr(0, 300) + diff(r, d));
              ex.state(e.field + a.value);
              ex.transition();
            }
          for (auto dir : {"out", "deep", "results"}) fs::remove_all(fs::path(".") / dir);
          ex.trace();
          ex.sample(key);
          ex.end();
        }
      for (auto &b : e.bad)
        {
          const std::string key = "reject " + e.path + "/" + e.name + " = " + b;
          if (!ex.begin(key)) continue;
          Dump d;
          const std::string err = parse(with(e, b, b[0] == '-'), d);
          ex.check(!err.empty(), "invalid-accepted", e.path + "/" + e.name + " = " + b + " was accepted (" + e.field + " = " + d[e.field] + ")");
          ex.transition();
          ex.trace();
          ex.end();
        }
    }
  // pairs of independent entries: setting both has both effects
  for (size_t i = 0; i < E.size(); ++i)
    for (size_t j = i + 1; j < E.size(); ++j)
      {
        const Entry &a = E[i], &b = E[j];
        if (ex.quick && (i * 31 + j) % 7) continue;
        if (a.path == b.path || !a.derived.empty() || !b.derived.empty() || a.name == "Initial slip resistance" || b.name == "Initial slip resistance" || (a.context.empty() ? false : !b.context.empty() && a.context != b.context)) continue;
        if ((a.field.substr(0, 5) == "mono." || a.name == "Monolithic preconditioner") && !b.context.empty()) continue;
        const std::string key = "pair " + a.path + "/" + a.name + " + " + b.path + "/" + b.name;
        if (!ex.begin(key)) continue;
        Dump base, d;
        const std::string ctx = a.context.empty() ? b.context : a.context;
        if (ctx.empty()) base = defaults; else parse(ctx, base);
        const std::string err = parse(ctx + line(a.path, a.name, a.alts[0].text) + line(b.path, b.name, b.alts[0].text), d);
        if (ex.check(err.empty(), "valid-rejected", err.substr(0, 500)))
          for (auto &p : d)
            {
              const std::string w = p.first == a.field ? a.alts[0].value : p.first == b.field ? b.alts[0].value : base[p.first];
              if (p.first == "logger_output_directory") continue;
              ex.check(p.second == w, "pair-field", p.first + " is " + p.second + ", expected " + w);
            }
        ex.transition();
        ex.trace();
        ex.end();
      }
  // three-dimensional input: the files with the suffix are preferred when all of them exist
  for (int have = 0; have < 8; ++have)
    for (int dim : {2, 3})
      {
        const std::string key = "suffix;dim=" + std::to_string(dim) + ";have=" + std::to_string(have);
        if (!ex.begin(key)) continue;
        const char *names[3] = {"sn", "sd", "ea"};
        for (int i = 0; i < 3; ++i)
          if (have >> i & 1) { std::ofstream o(std::string(names[i]) + "_3d.txt"); o << "x\n"; }
        Dump d;
        const std::string I = "3. Input parameters";
        const std::string err = parse(line(I, "Slip normals path name", "sn") + line(I, "Slip directions path name", "sd") + line(I, "Euler angles path name", "ea") + line("1. Spatial discretization parameters", "Spatial dimension", std::to_string(dim)), d);
        const std::string suf = dim == 3 && have == 7 ? "_3d" : "";
        ex.check(err.empty() && d["input.slips_normals_pathname"] == "sn" + suf && d["input.slips_directions_pathname"] == "sd" + suf && d["input.euler_angles_pathname"] == "ea" + suf, "suffix", err + d["input.slips_normals_pathname"]);
        for (int i = 0; i < 3; ++i) fs::remove(std::string(names[i]) + "_3d.txt");
        ex.trace();
        ex.end();
      }
  // semi-coupled problem
  {
    const std::string P = "Semi-coupled problem";
    struct R { std::string n, f; double def; std::vector<std::string> ok, bad; };
    std::vector<R> rs;
    for (auto c : {"11", "22", "33", "23", "13", "12"}) rs.push_back({std::string("Max strain component ") + c, std::string("strain_component_") + c, std::string(c) == "12" ? 0.01 : 0., {"0.5", "-0.25", "0"}, {"x"}});
    rs.push_back({"Minimum to maximum strain load ratio", "min_to_max_strain_load_ratio", 0.5, {"0", "0.99"}, {"1", "-0.1", "2"}});
    auto ps = [&](const std::string &text, Dump &d) {
      { std::ofstream o("semi.prm"); o << text; }
      try { SemicoupledParameters p("semi.prm"); d = dump(p); return std::string(); } catch (std::exception &e) { return std::string("x") + e.what(); }
    };
    Dump base;
    const std::string e0 = ps("", base);
    for (auto &r : rs)
      {
        const std::string key = "semi " + r.n;
        if (!ex.begin(key)) continue;
        ex.check(e0.empty() && base[r.f] == n_(r.def), "default", r.n);
        for (auto &v : r.ok)
          {
            Dump d;
            const std::string err = ps(line(P, r.n, v), d);
            ex.check(err.empty() && d[r.f] == n_(atof(v.c_str())), "field", r.n + " = " + v + err.substr(0, 300));
            for (auto &p : d) if (p.first != r.f) ex.check(p.second == base[p.first], "other-field", p.first);
            ex.transition();
          }
        for (auto &v : r.bad)
          { Dump d; ex.check(!ps(line(P, r.n, v), d).empty(), "invalid-accepted", r.n + " = " + v); }
        ex.trace();
        ex.end();
      }
    if (ex.begin("semi mesh"))
      {
        Dump d;
        ex.check(ps(line(P, "Mesh file (*.msh) path name", "a/b.msh"), d).empty() && d["msh_file_pathname"] == "a/b.msh", "field", "mesh file");
        for (std::string bad : {"a/b.txt", "mesh"}) ex.check(!ps(line(P, "Mesh file (*.msh) path name", bad), d).empty(), "invalid-accepted", "mesh file " + bad);
        ex.trace();
        ex.end();
      }
  }
  return ex.finish();
}
