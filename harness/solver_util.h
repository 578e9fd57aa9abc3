// Small boundary-value problems on rows of cells solved by the real solver, and an independent
// evaluation of the balance equations and internal variables (own formulas, deal.II shape functions only).
#pragma once
#include "field_util.h"
#include <gCP/gradient_crystal_plasticity.h>
#include <gCP/run_time_parameters.h>
#include <deal.II/base/discrete_time.h>
#include <deal.II/base/conditional_ostream.h>
#include <deal.II/base/timer.h>
#include <deal.II/base/tensor_function.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/hp/fe_values.h>
#include <deal.II/lac/affine_constraints.h>

namespace vp
{
namespace RTP = gCP::RunTimeParameters;

struct Cfg
{
  std::vector<unsigned> mats{0, 0};
  std::array<double, 3> h{{1.0, 0.8, 0.9}};
  int ny = 1;                    // rows of cells (mats listed row by row)
  int ns = 1;
  int skewed = 0;                // 1: sheared and bent, 2: every vertex moved
  std::vector<Row> angles;       // default chosen from dim
  bool dec = false;
  RTP::BoundaryConditionsAtGrainBoundaries gb = RTP::BoundaryConditionsAtGrainBoundaries::Microfree;
  RTP::SolutionAlgorithm algo = RTP::SolutionAlgorithm::Monolithic;
  RTP::SolverType krylov = RTP::SolverType::DirectSolver;
  bool line_search = false, extrapolate = true, reset_micro = false;
  RTP::RegularizationFunction reg = RTP::RegularizationFunction::Tanh;
  double reg_param = 0.2;
  bool rate_independent = false;
  bool perfect = false;
  double H = 0.8, q = 1.4, g0 = 0.3;
  double l = 0.5, p = 2.0, g0v = 1.0;
  double K_gb = 1.0;
  double sc = 0.6, dc = 0.15, beta = 0.8;
  double penalty = 50.0, degr = 2.0;
  RTP::DamageEvolutionModel damage = RTP::DamageEvolutionModel::OrtizEtAl;
  double dac = 2.0, ddc = 0.1, dde = 1.0, endl = 0.0;
  bool couple_micro = false, couple_macro = false;
  bool microhard_ends = false;
  int load_dir = 1;              // component moved on the right face
  bool neumann = false, supply = false, macro = false;
  bool free_right = false;       // right face not prescribed
  bool affine = false;           // displacement A x prescribed on the whole boundary
  std::array<std::array<double, 3>, 3> A{};
  bool fix_slips = false;        // every slip prescribed to vanish
  double scale_x = 1, scale_t = 1, scale_b = 1, scale_e = 1; // units of length, traction, body force and strain of the problem passed to the solver
  bool periodic = false;         // lower and upper face tied
  int pu = 1, pg = 1;
  double tol = 1e-9;
  int newton_max = 60, loops_max = 400;
  double amp = 0.06;             // load increment
  std::array<double, 3> C{{10.0, 5.0, 4.0}};
};

template <int dim>
std::vector<Row> default_angles(unsigned nc)
{
  std::vector<Row> a;
  for (unsigned i = 0; i < nc; ++i)
    a.push_back(dim == 2 ? Row{17.0 + 53.0 * i} : Row{20.0 + 40.0 * i, 35.0 - 25.0 * i, 10.0 + 60.0 * i});
  return a;
}
template <int dim>
void systems(int ns, std::vector<Row> &d, std::vector<Row> &n)
{
  if (dim == 2)
    {
      d = {{1, 0}, {1, 2}, {0, 1}, {2, 1}, {1, 1}, {1, -1}, {1, 3}, {3, 1}, {2, -1}, {1, -2}, {3, -1}, {1, -3}};
      n = {{0, 1}, {-2, 1}, {1, 0}, {-1, 2}, {-1, 1}, {1, 1}, {-3, 1}, {-1, 3}, {1, 2}, {2, 1}, {1, 3}, {3, 1}};
    }
  else
    {
      d = {{1, 1, 0}, {0, 1, -1}, {1, 0, 1}};
      n = {{1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
    }
  d.resize(ns);
  n.resize(ns);
}

template <int dim>
struct Traction : dealii::TensorFunction<1, dim>
{
  double a, x, v, now = 0; // the time is kept here so that the race detector sees who writes it
  void set_time(const double t) override
  {
    now = t;
    dealii::TensorFunction<1, dim>::set_time(t);
  }
  Traction(double a, double x = 1, double v = 1) : dealii::TensorFunction<1, dim>(0.0), a(a), x(x), v(v) {}
  dealii::Tensor<1, dim> value(const dealii::Point<dim> &p) const override
  {
    dealii::Tensor<1, dim> t;
    t[0] = 0.3 * a;
    t[1] = a * (1.0 + 0.5 * now + 0.2 * p[1] * x);
    t /= v;
    return t;
  }
};
template <int dim>
struct Supply : dealii::TensorFunction<1, dim>
{
  double x, v;
  Supply(double x = 1, double v = 1) : dealii::TensorFunction<1, dim>(0.0), x(x), v(v) {}
  dealii::Tensor<1, dim> value(const dealii::Point<dim> &p) const override
  {
    dealii::Tensor<1, dim> t;
    t[0] = 0.05 * p[0] * x;
    t[dim - 1] = -0.1 + 0.03 * p[0] * p[1] * x * x;
    t /= v;
    return t;
  }
};

template <int dim>
RTP::SolverParameters solver_parameters(const Cfg &c, const std::string &dir)
{
  RTP::SolverParameters s;
  s.solution_algorithm = c.algo;
  auto set = [&](RTP::NonlinearSystemSolverParameters &n) {
    n.krylov_parameters.solver_type = c.krylov;
    n.krylov_parameters.relative_tolerance = 1e-8;
    n.krylov_parameters.absolute_tolerance = 1e-11;
    n.krylov_parameters.n_max_iterations = 2000;
    n.newton_parameters.absolute_tolerance = c.tol;
    n.newton_parameters.relative_tolerance = 1e-12;
    n.newton_parameters.n_max_iterations = c.newton_max;
    n.newton_parameters.flag_line_search = c.line_search;
  };
  set(s.monolithic_algorithm_parameters.monolithic_system_solver_parameters);
  set(s.staggered_algorithm_parameters.linear_momentum_solver_parameters);
  set(s.staggered_algorithm_parameters.pseudo_balance_solver_parameters);
  s.staggered_algorithm_parameters.max_n_solution_loops = c.loops_max;
  s.staggered_algorithm_parameters.flag_reset_trial_solution_at_micro_loop = c.reset_micro;
  auto &l = s.constitutive_laws_parameters;
  l.hooke_law_parameters.C1111 = c.C[0];
  l.hooke_law_parameters.C1122 = c.C[1];
  l.hooke_law_parameters.C1212 = c.C[2];
  l.scalar_microstress_law_parameters.regularization_function = c.reg;
  l.scalar_microstress_law_parameters.regularization_parameter = c.reg_param;
  l.scalar_microstress_law_parameters.flag_rate_independent = c.rate_independent;
  l.vectorial_microstress_law_parameters.energetic_length_scale = c.l;
  l.vectorial_microstress_law_parameters.initial_slip_resistance = c.g0v;
  l.vectorial_microstress_law_parameters.defect_energy_index = c.p;
  l.vectorial_microstress_law_parameters.regularization_parameter = 1e-16;
  l.microtraction_law_parameters.grain_boundary_modulus = c.K_gb;
  l.cohesive_law_parameters.critical_cohesive_traction = c.sc;
  l.cohesive_law_parameters.critical_opening_displacement = c.dc;
  l.cohesive_law_parameters.tangential_to_normal_stiffness_ratio = c.beta;
  l.contact_law_parameters.penalty_coefficient = c.penalty;
  l.degradation_function_parameters.degradation_exponent = c.degr;
  l.hardening_law_parameters.initial_slip_resistance = c.g0;
  l.hardening_law_parameters.linear_hardening_modulus = c.H;
  l.hardening_law_parameters.hardening_parameter = c.q;
  l.hardening_law_parameters.flag_perfect_plasticity = c.perfect;
  auto &d = l.damage_evolution_parameters;
  d.damage_evolution_model = c.damage;
  d.damage_accumulation_constant = c.dac;
  d.damage_decay_constant = c.ddc;
  d.damage_decay_exponent = c.dde;
  d.endurance_limit = c.endl;
  d.flag_couple_microtraction_to_damage = c.couple_micro;
  d.flag_couple_macrotraction_to_damage = c.couple_macro;
  d.flag_set_damage_to_zero = false;
  s.allow_decohesion = c.dec;
  s.boundary_conditions_at_grain_boundaries = c.gb;
  s.logger_output_directory = dir + "/";
  s.flag_skip_extrapolation = !c.extrapolate;
  s.verbose = false;
  s.print_sparsity_pattern = false;
  s.flag_output_debug_fields = false;
  return s;
}

// Internal variables of the reference
struct RefState
{
  std::vector<std::vector<std::vector<double>>> g;              // [cell][q][slip]
  struct I { double max = 0, dam = 0, old = 0, tr = 0; };
  std::map<std::pair<std::string, std::string>, std::vector<I>> f; // by sorted cell ids
};

template <int dim>
struct Problem
{
  Cfg c;
  std::string dir;
  std::unique_ptr<dealii::Triangulation<dim>> own_tria;
  dealii::Triangulation<dim> *tria = nullptr;
  unsigned nc = 0;
  std::vector<std::vector<Slip>> sys;
  RTP::SolverParameters prm;
  std::shared_ptr<dealii::Mapping<dim>> mapping;
  std::shared_ptr<dealii::ConditionalOStream> pcout;
  std::shared_ptr<dealii::TimerOutput> timer;
  std::shared_ptr<gCP::FEField<dim>> field;
  std::shared_ptr<gCP::CrystalsData<dim>> crystals;
  std::unique_ptr<dealii::DiscreteTime> time;
  std::unique_ptr<gCP::GradientCrystalPlasticitySolver<dim>> solver;
  std::shared_ptr<Traction<dim>> traction;
  std::shared_ptr<Supply<dim>> supply;
  dealii::SymmetricTensor<2, dim> macro;
  RefState ref, trial;
  double load = 0, dt = 1, total_time = 0;
  std::vector<double> old_sol;

  Problem(const Cfg &cfg, const std::string &dir, dealii::Triangulation<dim> *ext = nullptr,
          const std::function<void(RTP::SolverParameters &)> &tweak = nullptr)
    : c(cfg), dir(dir)
  {
    using namespace dealii;
    if (ext) tria = ext;
    else
      {
        own_tria = std::make_unique<Triangulation<dim>>();
        tria = own_tria.get();
        grid_mesh(*tria);
        if (c.skewed) GridTools_transform(*tria, c.skewed);
        if (c.scale_x != 1) dealii::GridTools::scale(1.0 / c.scale_x, *tria);
      }
    for (auto m : c.mats) nc = std::max(nc, m + 1);
    if (c.angles.empty()) c.angles = default_angles<dim>(nc);
    std::vector<Row> d, n;
    systems<dim>(c.ns, d, n);
    crystals = make_crystals<dim>(dir, c.angles, d, n, tria);
    sys = rotated_systems(dim, c.angles, d, n);
    prm = solver_parameters<dim>(c, dir);
    if (tweak) tweak(prm);
    pcout = std::make_shared<ConditionalOStream>(std::cout, false);
    timer = std::make_shared<TimerOutput>(*pcout, TimerOutput::never, TimerOutput::wall_times);
    mapping = std::make_shared<MappingQ<dim>>(1);
    const bool single = c.algo == RTP::SolutionAlgorithm::Monolithic;
    field = std::make_shared<gCP::FEField<dim>>(*tria, c.pu, c.pg, c.dec, single);
    field->setup_extractors(nc, c.ns);
    for (auto &cell : field->get_dof_handler().active_cell_iterators())
      if (cell->is_locally_owned()) cell->set_active_fe_index(cell->material_id());
    field->setup_dofs();
    constrain(0.0, true);
    field->setup_vectors();
    time = std::make_unique<DiscreteTime>(0.0, 1000.0, 1.0);
    solver = std::make_unique<gCP::GradientCrystalPlasticitySolver<dim>>(prm, *time, field, crystals, mapping, pcout, timer);
    if (c.neumann)
      {
        traction = std::make_shared<Traction<dim>>(0.05, c.scale_x, c.scale_t);
        solver->set_neumann_boundary_condition(3, traction);
      }
    if (c.supply)
      {
        supply = std::make_shared<Supply<dim>>(c.scale_x, c.scale_b);
        solver->set_supply_term(supply);
      }
    if (c.macro)
      {
        macro[0][0] = 0.01;
        macro[0][1] = -0.02;
        macro[dim - 1][dim - 1] = 0.015;
        macro /= c.scale_e;
        solver->set_macroscopic_strain(macro);
      }
    solver->init();
    old_sol.assign(field->n_dofs(), 0.0);
    init_ref();
  }
  void grid_mesh(dealii::Triangulation<dim> &t) const
  {
    const unsigned nx = c.mats.size() / c.ny;
    std::vector<unsigned int> rep(dim, 1);
    rep[0] = nx;
    rep[1] = c.ny;
    dealii::Point<dim> p1, p2;
    for (int d = 0; d < dim; ++d) p2[d] = c.h[d] * rep[d];
    dealii::GridGenerator::subdivided_hyper_rectangle(t, rep, p1, p2, true);
    for (auto &cell : t.active_cell_iterators())
      cell->set_material_id(c.mats[(unsigned)(cell->center()[1] / c.h[1]) * nx + (unsigned)(cell->center()[0] / c.h[0])]);
  }
  static void GridTools_transform(dealii::Triangulation<dim> &t, int kind)
  {
    dealii::GridTools::transform([kind](const dealii::Point<dim> &p) {
      dealii::Point<dim> r = p;
      if (kind == 2)
        {
          for (int d = 0; d < dim; ++d)
            {
              double a = d + 1;
              for (int e = 0; e < dim; ++e) a += 3.7 * (e + 1) * p[e] + d * p[e] * p[e];
              r[d] += 0.09 * std::sin(a);
            }
          return r;
        }
      r[0] += 0.15 * p[1] * (dim == 3 ? 1.0 + 0.2 * p[2] : 1.0);
      r[1] += 0.08 * std::sin(2.0 * p[0]) ;
      return r; }, t);
  }

  double g_init() const { return c.g0; }
  void init_ref()
  {
    const unsigned nq = dim == 2 ? 9 : 27;
    ref.g.assign(tria->n_active_cells(), std::vector<std::vector<double>>(nq, std::vector<double>(c.ns, g_init())));
    ref.f.clear();
    for (auto &cell : tria->active_cell_iterators())
      for (unsigned f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; ++f)
        if (!cell->at_boundary(f) && cell->neighbor(f)->material_id() != cell->material_id())
          ref.f[key(cell->id(), cell->neighbor(f)->id())] = std::vector<RefState::I>(dim == 2 ? 3 : 9);
    trial = ref;
  }
  static std::pair<std::string, std::string> key(const dealii::CellId &a, const dealii::CellId &b)
  {
    auto x = a.to_string(), y = b.to_string();
    return x < y ? std::make_pair(x, y) : std::make_pair(y, x);
  }

  // Component layout (crystal-local): <dim displacement, else slip
  int local_component(unsigned comp, unsigned crystal) const
  {
    const unsigned nu = c.dec ? dim * nc : dim;
    if (comp < nu)
      {
        if (c.dec) return comp / dim == crystal ? (int)(comp % dim) : -1;
        return comp;
      }
    comp -= nu;
    return comp / c.ns == crystal ? (int)(dim + comp % c.ns) : -1;
  }

  // Displacement of the right face, fixed left face, optional micro-hard ends and grain boundaries.
  void fill(dealii::AffineConstraints<double> &a, double value) const
  {
    std::vector<dealii::types::global_dof_index> idx;
    std::map<dealii::types::global_dof_index, dealii::Point<dim>> sp;
    if (c.affine)
      {
        dealii::hp::MappingCollection<dim> mc(*mapping);
        dealii::DoFTools::map_dofs_to_support_points(mc, field->get_dof_handler(), sp);
      }
    for (auto &cell : field->get_dof_handler().active_cell_iterators())
      {
        if (cell->is_artificial()) continue;
        if (c.fix_slips)
          {
            const auto &fe = cell->get_fe();
            idx.resize(fe.n_dofs_per_cell());
            cell->get_dof_indices(idx);
            for (unsigned i = 0; i < idx.size(); ++i)
              if (local_component(fe.system_to_component_index(i).first, cell->material_id()) >= dim && a.can_store_line(idx[i]) && !a.is_constrained(idx[i])) a.add_line(idx[i]);
          }
        if (c.affine)
          for (unsigned f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; ++f)
            {
              if (!cell->at_boundary(f)) continue;
              const auto &fe = cell->get_fe();
              idx.resize(fe.n_dofs_per_face(f));
              cell->face(f)->get_dof_indices(idx, cell->active_fe_index());
              for (unsigned i = 0; i < idx.size(); ++i)
                {
                  const int k = local_component(fe.face_system_to_component_index(i, f).first, cell->material_id());
                  if (k < 0 || k >= dim || !a.can_store_line(idx[i]) || a.is_constrained(idx[i])) continue;
                  double v = 0;
                  for (int d = 0; d < dim; ++d) v += value * c.A[k][d] * sp[idx[i]][d];
                  a.add_line(idx[i]);
                  a.set_inhomogeneity(idx[i], v);
                }
            }
        if (c.affine) continue;
        for (unsigned f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; ++f)
          {
            const bool left = cell->at_boundary(f) && cell->face(f)->boundary_id() == 0, right = cell->at_boundary(f) && cell->face(f)->boundary_id() == 1;
            const bool gb = !cell->at_boundary(f) && c.gb == RTP::BoundaryConditionsAtGrainBoundaries::Microhard &&
                            cell->neighbor(f)->material_id() != cell->material_id();
            if (!left && !right && !gb) continue;
            const auto &fe = cell->get_fe();
            idx.resize(fe.n_dofs_per_face(f));
            cell->face(f)->get_dof_indices(idx, cell->active_fe_index());
            for (unsigned i = 0; i < idx.size(); ++i)
              {
                const int k = local_component(fe.face_system_to_component_index(i, f).first, cell->material_id());
                if (k < 0) continue;
                double v = 0;
                if (k < dim)
                  {
                    if (gb || (right && c.free_right)) continue;
                    if (right && k == c.load_dir) v = value;
                  }
                else if (!(gb || c.microhard_ends)) continue;
                if (!a.can_store_line(idx[i]) || (a.is_constrained(idx[i]))) continue;
                a.add_line(idx[i]);
                a.set_inhomogeneity(idx[i], v);
              }
          }
      }
  }
  // ties of the upper to the lower face
  void tie(dealii::AffineConstraints<double> &a) const
  {
    if (!c.periodic) return;
    using It = typename dealii::DoFHandler<dim>::active_cell_iterator;
    std::map<std::string, std::pair<It, unsigned>> lower;
    std::vector<dealii::types::global_dof_index> m, s;
    for (int pass = 0; pass < 2; ++pass)
      for (auto &cell : field->get_dof_handler().active_cell_iterators())
        for (unsigned f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; ++f)
          {
            if (cell->is_artificial() || !cell->at_boundary(f) || cell->face(f)->boundary_id() != (pass ? 3u : 2u)) continue;
            std::string k = shortnum(cell->face(f)->center()[0]) + "/" + shortnum(dim == 3 ? cell->face(f)->center()[dim - 1] : 0);
            if (!pass) { lower[k] = {cell, f}; continue; }
            if (!lower.count(k)) continue;
            auto &o = lower.at(k);
            m.resize(cell->get_fe().n_dofs_per_face(f));
            s.resize(m.size());
            o.first->face(o.second)->get_dof_indices(m, o.first->active_fe_index());
            cell->face(f)->get_dof_indices(s, cell->active_fe_index());
            for (unsigned i = 0; i < m.size(); ++i)
              if (!a.is_constrained(s[i]) && !a.is_constrained(m[i]))
                {
                  a.add_line(s[i]);
                  a.add_entry(s[i], m[i], 1.0);
                }
          }
  }
  void constrain(double value, bool with_newton)
  {
    dealii::AffineConstraints<double> a, b;
    a.reinit(field->get_locally_relevant_dofs());
    a.merge(field->get_hanging_node_constraints());
    fill(a, value);
    tie(a);
    a.close();
    field->set_affine_constraints(a);
    if (with_newton)
      {
        b.reinit(field->get_locally_relevant_dofs());
        b.merge(field->get_hanging_node_constraints());
        fill(b, 0.0);
        tie(b);
        b.close();
        field->set_newton_method_constraints(b);
      }
  }

  std::vector<double> values(const dealii::LinearAlgebraTrilinos::MPI::BlockVector &v) const
  {
    std::vector<double> r(field->n_dofs());
    for (unsigned i = 0; i < r.size(); ++i) r[i] = v(i);
    return r;
  }

  // One load step of the given increment; false if the solver did not converge.
  std::string error;
  bool step(double increment, double dt_, bool skip_extrapolation = false)
  {
    dt = dt_;
    load += increment;
    time->set_desired_next_step_size(dt);
    constrain(load, false);
    try
      {
        solver->solve_nonlinear_system(skip_extrapolation);
      }
    catch (dealii::ExceptionBase &e)
      {
        error = e.get_exc_name();
        std::string w = e.what();
        error += " " + w.substr(0, 400);
        return false;
      }
    catch (std::exception &e)
      {
        error = e.what();
        return false;
      }
    return true;
  }
  bool not_converged() const { return error.find("MaxIter") != std::string::npos; }
  void accept()
  {
    old_sol = values(field->solution);
    field->update_solution_vectors();
    time->advance_time();
    ref = trial;
  }

  // ---------------------------------------------------------------- reference
  static double regf(double x, double a, RTP::RegularizationFunction f)
  {
    const double h = M_PI / 2;
    switch (f)
      {
        case RTP::RegularizationFunction::Atan: return std::atan(h * x / a) / h;
        case RTP::RegularizationFunction::Sqrt: return x / std::hypot(x, a);
        case RTP::RegularizationFunction::Gd: return std::atan(std::sinh(h * x / a)) / h;
        case RTP::RegularizationFunction::Tanh: return std::tanh(x / a);
        case RTP::RegularizationFunction::Erf: return std::erf(std::sqrt(M_PI) / 2 * x / a);
      }
    return 0;
  }
  double flow(double dg) const { return c.rate_independent ? (dg > 0) - (dg < 0) : regf(dg / dt, c.reg_param, c.reg); }
  double eff(const double *d, const double *n) const
  {
    double dn = 0, t2 = 0;
    for (int i = 0; i < dim; ++i) dn += d[i] * n[i];
    for (int i = 0; i < dim; ++i) t2 += std::pow(d[i] - dn * n[i], 2);
    const double p = std::max(dn, 0.0);
    return std::sqrt(p * p + c.beta * c.beta * t2);
  }
  double degradation(double d) const { return d <= 0 ? 1.0 : d >= 1 ? 0.0 : std::pow(1.0 - d, c.degr); }
  double gb_energy(unsigned A, unsigned B, const double *n, const double *ga, const double *gb) const
  {
    // grain-boundary Burgers tensor G = sum gamma s (x) (m x n) of A minus that of B
    double G[3][3] = {{0}};
    for (int side = 0; side < 2; ++side)
      for (int k = 0; k < c.ns; ++k)
        {
          const Slip &x = sys[side ? B : A][k];
          const double g = (side ? -1 : 1) * (side ? gb[k] : ga[k]);
          double w[3] = {x.m[1] * n[2] - x.m[2] * n[1], x.m[2] * n[0] - x.m[0] * n[2], x.m[0] * n[1] - x.m[1] * n[0]};
          for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) G[i][j] += g * x.s[i] * w[j];
        }
    double e = 0;
    for (auto &r : G) for (double v : r) e += v * v;
    return 0.5 * c.K_gb * e;
  }

  // Residual of both balances at (sol), previous step old_sol; updates `trial` internals.
  // tau_at_node: optional.
  // With `star` (a linearisation point and its internals) the damage stays that of the star and the hardening is
  // the regularised one linearised there: the documented approximation of the tangent.
  struct Star { std::vector<double> sol; RefState st; };
  std::vector<double> residual(const std::vector<double> &sol, double t_next, const Star *star = nullptr)
  {
    using namespace dealii;
    trial = ref;
    std::vector<double> F(field->n_dofs(), 0.0);
    hp::MappingCollection<dim> mc(*mapping);
    hp::QCollection<dim> qc(QGauss<dim>(3));
    hp::QCollection<dim - 1> fqc(QGauss<dim - 1>(3));
    hp::FEValues<dim> hfe(mc, field->get_fe_collection(), qc, update_values | update_gradients | update_JxW_values | update_quadrature_points);
    hp::FEFaceValues<dim> hf(mc, field->get_fe_collection(), fqc, update_values | update_JxW_values | update_normal_vectors | update_quadrature_points),
      hn(mc, field->get_fe_collection(), fqc, update_values);
    std::vector<types::global_dof_index> idx, nidx;
    unsigned ci = 0;
    if (traction) traction->set_time(t_next);
    for (auto &cell : field->get_dof_handler().active_cell_iterators())
      {
        const unsigned cr = cell->material_id();
        hfe.reinit(cell);
        const auto &fv = hfe.get_present_fe_values();
        const unsigned n = cell->get_fe().n_dofs_per_cell();
        idx.resize(n);
        cell->get_dof_indices(idx);
        std::vector<int> comp(n);
        for (unsigned i = 0; i < n; ++i) comp[i] = local_component(cell->get_fe().system_to_component_index(i).first, cr);
        for (unsigned q = 0; q < fv.n_quadrature_points; ++q)
          {
            M3 e;
            std::vector<double> ga(c.ns, 0), go(c.ns, 0), gs(c.ns, 0);
            std::vector<std::array<double, 3>> gg(c.ns, {{0, 0, 0}});
            for (unsigned i = 0; i < n; ++i)
              {
                const int k = comp[i];
                if (k < 0) continue;
                const auto gr = fv.shape_grad(i, q);
                if (k < dim)
                  for (int j = 0; j < dim; ++j)
                    {
                      e[k][j] += 0.5 * sol[idx[i]] * gr[j];
                      e[j][k] += 0.5 * sol[idx[i]] * gr[j];
                    }
                else
                  {
                    const double v = fv.shape_value(i, q);
                    ga[k - dim] += sol[idx[i]] * v;
                    go[k - dim] += old_sol[idx[i]] * v;
                    if (star) gs[k - dim] += star->sol[idx[i]] * v;
                    for (int j = 0; j < dim; ++j) gg[k - dim][j] += sol[idx[i]] * gr[j];
                  }
              }
            for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) e[i][j] += macro[i][j];
            for (int k = 0; k < c.ns; ++k)
              for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
                e[i][j] -= 0.5 * ga[k] * (sys[cr][k].s[i] * sys[cr][k].m[j] + sys[cr][k].s[j] * sys[cr][k].m[i]);
            const M3 s = stress_of(e, c.angles[cr], c.C);
            std::vector<double> pi(c.ns), tau(c.ns, 0);
            std::vector<std::array<double, 3>> xi(c.ns, {{0, 0, 0}});
            auto &G = trial.g[ci][q];
            for (int k = 0; k < c.ns; ++k)
              {
                if (star)
                  {
                    G[k] = star->st.g[ci][q][k];
                    if (!c.perfect)
                      for (int b = 0; b < c.ns; ++b)
                        G[k] += c.H * (k == b ? 1.0 : c.q) * (ga[b] - gs[b]) * flow(gs[b] - go[b]);
                  }
                else if (!c.perfect)
                  for (int b = 0; b < c.ns; ++b) G[k] += c.H * (k == b ? 1.0 : c.q) * std::fabs(ga[b] - go[b]);
              }
            for (int k = 0; k < c.ns; ++k)
              {
                const Slip &x = sys[cr][k];
                for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) tau[k] += s[i][j] * x.s[i] * x.m[j];
                const double dg = ga[k] - go[k];
                pi[k] = G[k] * flow(dg);
                double gs = 0, gl = 0;
                for (int j = 0; j < dim; ++j) { gs += gg[k][j] * x.s[j]; gl += gg[k][j] * x.l[j]; }
                const double fac = c.g0v * std::pow(c.l, c.p);
                const double ms = gs == 0 ? 0 : fac * std::pow(std::fabs(gs), c.p - 2) * gs, ml = gl == 0 || dim == 2 ? 0 : fac * std::pow(std::fabs(gl), c.p - 2) * gl;
                for (int j = 0; j < dim; ++j) xi[k][j] = ms * x.s[j] + ml * x.l[j];
              }
            Tensor<1, dim> b;
            if (supply) b = supply->value(fv.quadrature_point(q));
            for (unsigned i = 0; i < n; ++i)
              {
                const int k = comp[i];
                if (k < 0) continue;
                const auto gr = fv.shape_grad(i, q);
                const double v = fv.shape_value(i, q);
                double r = 0;
                if (k < dim)
                  {
                    for (int j = 0; j < dim; ++j) r += gr[j] * s[k][j];
                    r -= v * b[k];
                  }
                else
                  {
                    for (int j = 0; j < dim; ++j) r += gr[j] * xi[k - dim][j];
                    r += v * (pi[k - dim] - tau[k - dim]);
                  }
                F[idx[i]] += r * fv.JxW(q);
              }
          }
        for (unsigned f = 0; f < GeometryInfo<dim>::faces_per_cell; ++f)
          {
            if (cell->at_boundary(f))
              {
                if (!traction || cell->face(f)->boundary_id() != 3) continue;
                hf.reinit(cell, f);
                const auto &w = hf.get_present_fe_values();
                for (unsigned q = 0; q < w.n_quadrature_points; ++q)
                  {
                    const auto t = traction->value(w.quadrature_point(q));
                    for (unsigned i = 0; i < n; ++i)
                      if (comp[i] >= 0 && comp[i] < dim) F[idx[i]] -= w.shape_value(i, q) * t[comp[i]] * w.JxW(q);
                  }
                continue;
              }
            if (cell->neighbor(f)->material_id() == cr) continue;
            const bool mt = c.gb == RTP::BoundaryConditionsAtGrainBoundaries::Microtraction;
            if (!mt && !c.dec) continue;
            auto nb = cell->neighbor(f);
            const unsigned cn = nb->material_id();
            hf.reinit(cell, f);
            hn.reinit(nb, cell->neighbor_of_neighbor(f));
            const auto &w = hf.get_present_fe_values();
            const auto &wn = hn.get_present_fe_values();
            nidx.resize(nb->get_fe().n_dofs_per_cell());
            nb->get_dof_indices(nidx);
            auto &I = trial.f[key(cell->id(), nb->id())];
            const auto &I0 = ref.f[key(cell->id(), nb->id())];
            for (unsigned q = 0; q < w.n_quadrature_points; ++q)
              {
                double nn[3] = {0, 0, 0}, uc[3] = {0, 0, 0}, un[3] = {0, 0, 0};
                for (int j = 0; j < dim; ++j) nn[j] = w.normal_vector(q)[j];
                std::vector<double> ga(c.ns, 0), gn(c.ns, 0);
                for (unsigned i = 0; i < n; ++i)
                  if (comp[i] >= 0) (comp[i] < dim ? uc[comp[i]] : ga[comp[i] - dim]) += sol[idx[i]] * w.shape_value(i, q);
                for (unsigned i = 0; i < nidx.size(); ++i)
                  {
                    const int k = local_component(nb->get_fe().system_to_component_index(i).first, cn);
                    if (k >= 0) (k < dim ? un[k] : gn[k - dim]) += sol[nidx[i]] * wn.shape_value(i, q);
                  }
                double T[3] = {0, 0, 0}, dmac = 1, dmic = 1;
                if (c.dec)
                  {
                    double d[3] = {0, 0, 0}, dn = 0;
                    for (int j = 0; j < dim; ++j) d[j] = un[j] - uc[j];
                    for (int j = 0; j < dim; ++j) dn += d[j] * nn[j];
                    const double ef = eff(d, nn);
                    I[q].max = std::max(I0[q].max, ef);
                    if (c.damage == RTP::DamageEvolutionModel::OrtizEtAl)
                      {
                        const double r = I[q].max / c.dc;
                        I[q].dam = 1 - (1 + r) * std::exp(-r);
                      }
                    else
                      {
                        const double er = ef / c.dc;
                        const double psi = c.sc * c.dc * std::exp(1.0) * (1 - (1 + er) * std::exp(-er)) + gb_energy(cr, cn, nn, ga.data(), gn.data());
                        const double force = c.degr * std::pow(1 - I0[q].dam, c.degr - 1) * psi;
                        I[q].dam = std::min(1.0, I0[q].dam + c.dac * std::max(0.0, ef - I0[q].old) * std::pow(1 - I0[q].dam + c.ddc, c.dde) * std::max(0.0, force - c.endl));
                      }
                    if (star) I[q].dam = star->st.f.at(key(cell->id(), nb->id()))[q].dam;
                    I[q].old = ef;
                    if (c.couple_macro) dmac = degradation(I[q].dam);
                    if (c.couple_micro) dmic = degradation(I[q].dam);
                    const double m = I[q].max;
                    const double secant = m > 0 ? c.sc * std::exp(1 - m / c.dc) / c.dc : 0; // T_eff(m)/m
                    I[q].tr = 0;
                    for (int j = 0; j < dim; ++j) I[q].tr += std::pow(dmac * secant * (std::max(dn, 0.0) * nn[j] + c.beta * c.beta * (d[j] - dn * nn[j])), 2);
                    I[q].tr = std::sqrt(I[q].tr);
                    for (int j = 0; j < dim; ++j)
                      T[j] = dmac * secant * (std::max(dn, 0.0) * nn[j] + c.beta * c.beta * (d[j] - dn * nn[j])) - c.penalty * std::max(-dn, 0.0) * nn[j];
                  }
                std::vector<double> mtr(c.ns, 0);
                if (mt)
                  {
                    // -d(energy)/d(own slip) by the quadratic form: exact central difference
                    for (int k = 0; k < c.ns; ++k)
                      {
                        auto up = ga, dn = ga;
                        up[k] += 0.5; dn[k] -= 0.5;
                        mtr[k] = -(gb_energy(cr, cn, nn, up.data(), gn.data()) - gb_energy(cr, cn, nn, dn.data(), gn.data()));
                      }
                  }
                for (unsigned i = 0; i < n; ++i)
                  {
                    const int k = comp[i];
                    if (k < 0) continue;
                    const double v = w.shape_value(i, q) * w.JxW(q);
                    if (k < dim) F[idx[i]] -= v * T[k];
                    else F[idx[i]] -= v * dmic * mtr[k - dim];
                  }
              }
          }
        ++ci;
      }
    return F;
  }

  // Restrict to the free unknowns (prescribed ones dropped, tied ones added to their master)
  std::vector<double> restricted(const std::vector<double> &F) const
  {
    std::vector<double> r = F;
    dealii::AffineConstraints<double> a;
    a.copy_from(field->get_affine_constraints());
    for (unsigned i = 0; i < r.size(); ++i)
      if (a.is_constrained(i))
        {
          if (auto *e = a.get_constraint_entries(i))
            for (auto &x : *e) r[x.first] += x.second * r[i];
          r[i] = 0;
        }
    return r;
  }
  static double norm(const std::vector<double> &v)
  {
    double s = 0;
    for (double x : v) s += x * x;
    return std::sqrt(s);
  }
};

// Some accepted steps, then a trial state off equilibrium
template <int dim>
bool trial_state(Problem<dim> &p, int steps, double amplitude = 0.01, double phase = 1.0)
{
  for (int k = 0; k < steps; ++k)
    {
      if (!p.step((k % 2 ? -0.5 : 1.0) * p.c.amp, 1.0)) return false;
      p.residual(p.values(p.field->solution), p.time->get_next_time());
      p.accept();
    }
  auto &s = *p.solver;
  p.time->set_desired_next_step_size(1.0);
  s.prepare_quadrature_point_history();
  s.store_slip_resistances();
  s.extrapolate_initial_trial_solution(false);
  s.reset_internal_newton_method_constraints();
  auto t = p.field->get_distributed_vector_instance(s.trial_solution);
  for (unsigned i = 0; i < p.field->n_dofs(); ++i) t(i) += amplitude * std::sin(phase + 2.3 * i);
  p.field->get_affine_constraints().distribute(t);
  s.trial_solution = t;
  return true;
}

} // namespace vp
