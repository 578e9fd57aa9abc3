// S03: the converged step does not depend on the numerical path.
//  paths : every solver setting against the monolithic direct reference, step by step over every history
//  linear: every linear solve (monolithic, decoupled, reduced) against dense elimination of the same matrix
//  line  : every line-search trial equals start + lambda * update, and the residual is the one of that trial
#include "solver_options.h"
#include <deal.II/lac/full_matrix.h>
using namespace vp;
using Algo = RTP::SolutionAlgorithm;

template <int dim>
struct Snap
{
  std::vector<double> u;                       // canonical order
  std::vector<double> internals;
};
// dof order differs between the single-block and the two-block field: address unknowns by (cell, local index)
template <int dim>
std::vector<double> canonical(const Problem<dim> &p, const std::vector<double> &v)
{
  std::vector<double> r;
  std::vector<dealii::types::global_dof_index> idx;
  for (auto &cell : p.field->get_dof_handler().active_cell_iterators())
    {
      idx.resize(cell->get_fe().n_dofs_per_cell());
      cell->get_dof_indices(idx);
      for (auto i : idx) r.push_back(v[i]);
    }
  return r;
}
template <int dim>
std::vector<double> internals(Problem<dim> &p)
{
  std::vector<double> r;
  for (auto &cell : p.field->get_dof_handler().active_cell_iterators())
    {
      auto d = p.solver->quadrature_point_history.get_data(cell);
      for (auto &x : d)
        for (double g : x->get_slip_resistances()) r.push_back(g);
      if (!p.c.dec) continue;
      for (unsigned f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; ++f)
        {
          if (cell->at_boundary(f) || cell->neighbor(f)->material_id() == cell->material_id()) continue;
          for (auto &x : p.solver->interface_quadrature_point_history.get_data(cell->id(), cell->neighbor(f)->id()))
            {
              r.push_back(x->get_max_effective_opening_displacement());
              r.push_back(x->get_effective_opening_displacement());
              r.push_back(x->get_damage_variable());
            }
        }
    }
  return r;
}
inline double diff(const std::vector<double> &a, const std::vector<double> &b)
{
  if (a.size() != b.size()) return 1e300;
  double d = 0;
  for (size_t i = 0; i < a.size(); ++i)
    {
      if (!std::isfinite(a[i]) || !std::isfinite(b[i])) return 1e300;
      d = std::max(d, std::abs(a[i] - b[i]));
    }
  return d;
}

struct Path { std::string name; int dev; std::function<void(Cfg &)> f; Algo algo; };
inline std::vector<Path> paths()
{
  std::vector<Path> r;
  for (auto a : {Algo::Monolithic, Algo::Bouncing, Algo::Embracing})
    for (int line = 0; line < 2; ++line)
      for (int ex = 1; ex >= 0; --ex)
        for (auto k : {RTP::SolverType::DirectSolver, RTP::SolverType::CG, RTP::SolverType::GMRES})
          for (int reset = 0; reset < 2; ++reset)
            {
              if (reset && a == Algo::Monolithic) continue;
              std::string n = a == Algo::Monolithic ? "monolithic" : a == Algo::Bouncing ? "bouncing" : "embracing";
              if (line) n += "+linesearch";
              if (!ex) n += "+noextrapolation";
              if (k != RTP::SolverType::DirectSolver) n += k == RTP::SolverType::CG ? "+cg" : "+gmres";
              if (reset) n += "+resetmicro";
              const int dev = (a != Algo::Monolithic) + line + !ex + (k != RTP::SolverType::DirectSolver) + reset;
              r.push_back({n, dev, [=](Cfg &c) {
                             c.algo = a; c.line_search = line; c.extrapolate = ex; c.krylov = k; c.reset_micro = reset; }, a});
            }
  return r;
}

const double step_tol = 1e-10;

template <int dim>
void compare_paths(Explorer &ex, const std::string &name, Cfg c, const std::vector<StepSym> &h, int maxdev)
{
  const std::string key = "paths;dim=" + std::to_string(dim) + ";options=" + name + ";history=" + hist_str(h) + ";deviations=" + std::to_string(maxdev);
  if (!ex.begin(key)) return;
  c.tol = step_tol;
  std::vector<Snap<dim>> ref;
  try
    {
      for (auto &pa : paths())
        {
          if (pa.dev > maxdev) continue;
          Cfg k = c;
          pa.f(k);
          if (!admissible(k)) continue;
          const bool base = pa.dev == 0;
          Problem<dim> p(k, ex.workdir);
          unsigned n = 0;
          for (auto &x : h)
            {
              if (!base && n >= ref.size()) break;
              const std::string w = pa.name + ", step " + std::to_string(n + 1);
              ex.note("steps", 1);
              if (!p.step(x.inc * c.amp, x.dt))
                {
                  if (!p.not_converged()) ex.fail("exception", w + ": " + p.error);
                  ex.note("steps_not_converged", 1);
                  if (getenv("VP_NC")) fprintf(stderr, "NC %s | %s\n", key.c_str(), w.c_str());
                  break;
                }
              Snap<dim> s{canonical(p, p.values(p.field->solution)), internals(p)};
              if (base) ref.push_back(s);
              else
                {
                  const double du = diff(s.u, ref[n].u), di = diff(s.internals, ref[n].internals);
                  ex.note_max("largest_solution_difference", du);
                  ex.note_max("largest_internal_difference", di);
                  ex.check(du <= 1e-7, "solution", w + ": displacement or slip differs by " + num(du) + " from the monolithic direct solution");
                  ex.check(di <= 1e-7, "internal-variables", w + ": internal variables differ by " + num(di) + " from those of the monolithic direct solution");
                  ex.transition();
                }
              ex.state(name + hist_str(std::vector<StepSym>(h.begin(), h.begin() + n + 1)) + std::to_string(dim) + pa.name);
              p.trial = p.ref;
              p.accept();
              ++n;
            }
          if (base && ref.empty()) break;
          ex.trace();
        }
    }
  catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
  ex.sample(key);
  ex.end();
}

// Solutions of the linear systems
template <int dim>
void linear(Explorer &ex, const std::string &name, Cfg c, Algo algo, RTP::SolverType krylov, int state, int coupled)
{
  const std::string key = "linear;dim=" + std::to_string(dim) + ";options=" + name + ";algorithm=" + std::to_string((int)algo) + ";krylov=" + std::to_string((int)krylov) + ";state=" + std::to_string(state) + ";rhs=" + std::to_string(coupled);
  c.algo = algo;
  c.krylov = krylov;
  if (!admissible(c)) return;
  if (!ex.begin(key)) return;
  try
    {
      Problem<dim> p(c, ex.workdir);
      if (!trial_state(p, state)) { ex.note("states_not_reached", 1); ex.end(); return; }
      auto &s = *p.solver;
      s.reset_and_update_internal_variables();
      s.assemble_jacobian();
      s.assemble_residual();
      const unsigned n = p.field->n_dofs();
      auto rr = p.field->get_distributed_vector_instance(s.residual);
      auto &con = s.internal_newton_method_constraints;
      if (coupled)
        {
          for (unsigned i = 0; i < n; ++i) rr(i) = con.is_constrained(i) ? 0.0 : std::cos(0.3 + 1.7 * i * coupled);
          s.residual = rr;
        }
      std::vector<double> r(n);
      for (unsigned i = 0; i < n; ++i) r[i] = s.residual(i);
      const unsigned nu = algo == Algo::Monolithic ? n : s.jacobian.block(0, 0).m();
      auto dense = [&](unsigned r0, unsigned r1, unsigned c0, unsigned c1) {
        dealii::FullMatrix<double> m(r1 - r0, c1 - c0);
        for (unsigned i = r0; i < r1; ++i) for (unsigned j = c0; j < c1; ++j) m(i - r0, j - c0) = s.jacobian.el(i, j);
        return m;
      };
      auto judge = [&](const std::string &w, const dealii::FullMatrix<double> &m, unsigned r0, const std::vector<double> &x) {
        // the residual of the linear system, and nothing outside the solved block
        double e = 0, nr = 0;
        for (unsigned i = 0; i < m.m(); ++i)
          {
            double a = r[r0 + i];
            nr += a * a;
            if (con.is_constrained(r0 + i)) continue; // judged below
            for (unsigned j = 0; j < m.n(); ++j) a -= m(i, j) * x[r0 + j];
            e += a * a;
          }
        e = std::sqrt(e);
        nr = std::sqrt(nr);
        const double tol = 20 * std::max(1e-8 * nr, 1e-11);
        ex.note_max("largest_linear_residual_over_norm", nr > 0 ? e / nr : 0);
        ex.check(e <= tol, "linear-system", w + ": the update leaves a linear residual of " + num(e) + " of " + num(nr));
        for (unsigned i = 0; i < n; ++i)
          if (i < r0 || i >= r0 + m.m()) ex.check(x[i] == 0, "other-block", w + ": update of unknown " + std::to_string(i) + " outside the block is " + num(x[i]));
        for (unsigned i = r0; i < r0 + m.m(); ++i)
          if (con.is_constrained(i))
            {
              double v = 0;
              for (auto &e : *con.get_constraint_entries(i)) v += e.second * x[e.first];
              ex.check(x[i] == v, "constrained-update", w + ": update of the constrained unknown " + std::to_string(i) + " is " + num(x[i]) + " instead of " + num(v));
            }
        ex.transition();
      };
      auto update = [&]() { return p.values(s.newton_update); };
      if (algo == Algo::Monolithic)
        {
          s.solve_linearized_system();
          judge("monolithic", dense(0, n, 0, n), 0, update());
        }
      else
        {
          auto D = dense(0, nu, 0, nu), G = dense(nu, n, nu, n);
          if (algo == Algo::Embracing)
            {
              auto E = dense(0, nu, nu, n), F = dense(nu, n, 0, nu);
              dealii::FullMatrix<double> Gi(n - nu, n - nu), T(n - nu, nu), S(nu, nu);
              Gi.invert(G);
              Gi.mmult(T, F);
              E.mmult(S, T);
              S *= -1;
              S.add(1, D);
              s.solve_reduced_linearized_system();
              judge("reduced", S, 0, update());
            }
          s.solve_decoupled_linearized_subsystem(gCP::BlockIndex::Macro);
          judge("decoupled macro", D, 0, update());
          s.solve_decoupled_linearized_subsystem(gCP::BlockIndex::Micro);
          judge("decoupled micro", G, nu, update());
        }
    }
  catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
  ex.state(key);
  ex.trace();
  ex.sample(key);
  ex.end();
}

// The line search
template <int dim>
void line(Explorer &ex, const std::string &name, Cfg c, Algo algo, int state, int block, double scale)
{
  const std::string key = "line;dim=" + std::to_string(dim) + ";options=" + name + ";algorithm=" + std::to_string((int)algo) + ";state=" + std::to_string(state) + ";block=" + std::to_string(block) + ";scale=" + shortnum(scale);
  c.algo = algo;
  c.line_search = true;
  if (!admissible(c)) return;
  if (!ex.begin(key)) return;
  try
    {
      Problem<dim> p(c, ex.workdir);
      if (!trial_state(p, state)) { ex.note("states_not_reached", 1); ex.end(); return; }
      auto &s = *p.solver;
      s.store_trial_solution();
      s.reset_and_update_internal_variables();
      s.assemble_jacobian();
      s.assemble_residual();
      const auto b = block == 1 ? gCP::BlockIndex::Micro : gCP::BlockIndex::Macro;
      if (algo == Algo::Monolithic) s.solve_linearized_system();
      else s.solve_decoupled_linearized_subsystem(b);
      {
        auto u = p.field->get_distributed_vector_instance(s.newton_update);
        u *= scale;
        s.newton_update = u;
      }
      const auto start = p.values(s.trial_solution), upd = p.values(s.newton_update);
      auto merit = [&]() {
        const auto n = p.field->get_sub_l2_norms(s.residual);
        return gCP::LineSearch::get_objective_function_value(algo == Algo::Monolithic ? n.l2_norm() : n[block]);
      };
      auto search = std::make_unique<gCP::LineSearch>(p.prm.monolithic_algorithm_parameters.monolithic_system_solver_parameters.line_search_parameters);
      const double m_start = merit();
      search->reinit(m_start);
      if (algo == Algo::Monolithic) s.update_trial_solution(1.0);
      else s.update_trial_solution(1.0, b);
      s.reset_and_update_internal_variables();
      s.assemble_residual();
      const double m_full = merit();
      double lambda = 1;
      try
        {
          lambda = algo == Algo::Monolithic ? s.line_search_algorithm(search) : s.line_search_algorithm(search, b);
        }
      catch (std::exception &) { lambda = NAN; }
      ex.note(std::isnan(lambda) ? "searches_given_up" : lambda < 1 ? "searches_backtracked" : "searches_accepted", 1);
      if (!std::isnan(lambda))
        {
          const auto now = p.values(s.trial_solution);
          double e = 0, sc = 1e-3;
          for (unsigned i = 0; i < now.size(); ++i)
            {
              e = std::max(e, std::abs(now[i] - start[i] - lambda * upd[i]));
              sc = std::max(sc, std::abs(start[i]) + std::abs(upd[i]));
            }
          ex.check(e <= 1e-12 * sc, "line-search-trial", "the accepted trial differs by " + num(e) + " from start + " + num(lambda) + " update (scale " + num(sc) + ")");
          // the search judges the residual of the equations it is used for
          const auto &lp = p.prm.monolithic_algorithm_parameters.monolithic_system_solver_parameters.line_search_parameters;
          auto enough = [&](double m, double l) { gCP::LineSearch x(lp); x.reinit(m_start); return x.suficient_descent_condition(m, l); };
          const double m = merit();
          ex.check(enough(m, lambda) || search->get_n_iterations() >= lp.n_max_iterations, "line-search-accepts", "step length " + num(lambda) + " accepted with objective " + num(m) + " (start " + num(m_start) + ") after " + num(search->get_n_iterations()) + " iterations");
          if (lambda < 1) ex.check(!enough(m_full, 1), "line-search-backtracks", "step length " + num(lambda) + " although the full step has objective " + num(m_full) + " (start " + num(m_start) + ")");
          s.reset_and_update_internal_variables();
          s.assemble_residual();
          ex.close(m, merit(), merit(), 1e-10, "line-search-residual", "objective after the search against the one of the accepted trial");
        }
      ex.transition();
    }
  catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
  ex.state(key);
  ex.trace();
  ex.sample(key);
  ex.end();
}

int main(int argc, char **argv)
{
  Init init(argc, argv);
  Explorer ex(argc, argv);
  std::string mode = "paths";
  for (int i = 1; i + 1 < argc; ++i)
    if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
  if (!getenv("VP_LOUD")) std::cout.setstate(std::ios::failbit);
  const std::set<std::string> numerical = {"algo", "krylov", "line", "extra", "reset"};
  auto physics = [&](const Opt &o) { return !numerical.count(o.group); };
  auto all = [&](auto tag) {
    constexpr int dim = decltype(tag)::value;
    const std::vector<StepSym> small = {{1, 1}, {-1.5, 0.5}}, full = {{1, 1}, {-1, 0.5}, {0, 2}, {2.5, 1}};
    for (auto &b : bases(dim))
      for_each_config(dim, ex.quick ? (dim == 2 ? 1 : 0) : (dim == 2 ? 2 : 1), [&](const std::string &n, const Cfg &c, int d) {
        const std::string nm = b.name + n;
        if (mode == "paths")
          {
            const bool base = d == 0 && dim == 2;
            const int depth = ex.quick ? 2 : (d < 2 && dim == 2 ? 3 : 2);
            const int dev = ex.quick ? (base ? 2 : 1) : (base ? 9 : d < 2 ? 3 : 2);
            for (auto &h : histories(base && !ex.quick ? full : small, depth)) compare_paths<dim>(ex, nm, c, h, dev);
            if (base && !ex.quick) compare_paths<dim>(ex, nm, c, histories(small, 2)[1], 9);
          }
        else
          for (auto a : {Algo::Monolithic, Algo::Bouncing, Algo::Embracing})
            for (int st = 0; st < (ex.quick ? 2 : 4); ++st)
              {
                for (auto k : {RTP::SolverType::DirectSolver, RTP::SolverType::CG, RTP::SolverType::GMRES})
                  for (int rhs = 0; rhs < (ex.quick ? 2 : 3); ++rhs)
                    if (!ex.quick || (k == RTP::SolverType::DirectSolver ? rhs == 1 : rhs == 0 && st == 1)) linear<dim>(ex, nm, c, a, k, st, rhs);
                for (int bl = 0; bl < 2; ++bl)
                  for (double f : {1.0, 4.0, 120.0, 25.0, -0.5})
                    if ((!ex.quick || f > 25 || f == 4) && (a == Algo::Bouncing || (a == Algo::Monolithic && bl == 0))) line<dim>(ex, nm, c, a, st, bl, f);
              }
      }, physics, b.c);
  };
  all(std::integral_constant<int, 2>());
  all(std::integral_constant<int, 3>());
  return ex.finish();
}
