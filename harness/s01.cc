// S01: every converged step balances forces, evaluated by an independent assembly.
// S08 (--which S08): the internal variables follow exactly the accepted history.
#include "solver_options.h"
using namespace vp;

bool s08 = false, brief = false;

template <int dim>
void internals(Explorer &ex, Problem<dim> &p, const std::string &w)
{
  unsigned ci = 0;
  for (auto &cell : p.field->get_dof_handler().active_cell_iterators())
    {
      auto d = p.solver->quadrature_point_history.get_data(cell);
      for (unsigned q = 0; q < d.size(); ++q)
        {
          const auto g = d[q]->get_slip_resistances();
          for (int k = 0; k < p.c.ns; ++k)
            ex.close(g[k], p.trial.g[ci][q][k], p.trial.g[ci][q][k], 1e-10, "slip-resistance", w + ", cell " + std::to_string(ci) + " point " + std::to_string(q) + " system " + std::to_string(k));
        }
      if (p.c.dec)
        for (unsigned f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; ++f)
          {
            if (cell->at_boundary(f) || cell->neighbor(f)->material_id() == cell->material_id()) continue;
            auto a = p.solver->interface_quadrature_point_history.get_data(cell->id(), cell->neighbor(f)->id());
            auto b = p.solver->interface_quadrature_point_history.get_data(cell->neighbor(f)->id(), cell->id());
            auto &r = p.trial.f[p.key(cell->id(), cell->neighbor(f)->id())];
            auto &o = p.ref.f[p.key(cell->id(), cell->neighbor(f)->id())];
            for (unsigned q = 0; q < a.size(); ++q)
              {
                const std::string ww = w + ", interface of cell " + std::to_string(ci) + " point " + std::to_string(q);
                ex.check(a[q].get() == b[q].get(), "one-state", ww + ": the two sides do not share one state");
                ex.close(a[q]->get_max_effective_opening_displacement(), r[q].max, p.c.dc, 1e-8, "maximum-opening", ww);
                ex.close(a[q]->get_effective_opening_displacement(), r[q].old, p.c.dc, 1e-8, "opening", ww);
                ex.close(a[q]->get_old_effective_opening_displacement(), r[q].old, p.c.dc, 1e-8, "opening", ww);
                ex.close(a[q]->get_effective_cohesive_traction(), r[q].tr, p.c.sc, 1e-7, "traction", ww);
                const double d = a[q]->get_damage_variable();
                ex.close(d, r[q].dam, 1.0, 1e-7, "damage", ww);
                ex.check(d >= o[q].dam - 1e-9, "damage-monotone", ww + ": damage falls from " + num(o[q].dam) + " to " + num(d));
                ex.check(d >= 0 && d <= 1, "damage-bounds", ww + ": damage " + num(d));
              }
          }
      ++ci;
    }
}

template <int dim>
void balance(Explorer &ex, Problem<dim> &p, const std::vector<double> &s, const std::vector<double> &F, const std::string &w)
{
  auto R = p.restricted(F);
  const auto &dh = p.field->get_dof_handler();
  std::vector<char> slip(R.size(), 0);
  std::vector<dealii::types::global_dof_index> idx;
  for (auto &cell : dh.active_cell_iterators())
    {
      idx.resize(cell->get_fe().n_dofs_per_cell());
      cell->get_dof_indices(idx);
      for (unsigned i = 0; i < idx.size(); ++i)
        if (p.local_component(cell->get_fe().system_to_component_index(i).first, cell->material_id()) >= dim) slip[idx[i]] = 1;
    }
  double nu = 0, ng = 0;
  for (unsigned i = 0; i < R.size(); ++i)
    {
      if (p.c.rate_independent && slip[i] && std::abs(s[i] - p.old_sol[i]) <= 1e-12) continue; // inactive
      (slip[i] ? ng : nu) += R[i] * R[i];
    }
  const double tol = p.c.tol * (1 + 1e-6) + 1e-12 * p.norm(F);
  ex.check(std::sqrt(nu) <= tol, "momentum-balance", w + ": residual of the momentum balance " + num(std::sqrt(nu)) + ", tolerance " + num(p.c.tol));
  ex.check(std::sqrt(ng) <= tol, "micro-balance", w + ": residual of the micro-force balance " + num(std::sqrt(ng)) + ", tolerance " + num(p.c.tol));
  ex.note_max("largest_residual_over_tolerance", std::max(std::sqrt(nu), std::sqrt(ng)) / p.c.tol);
  // prescribed values
  dealii::AffineConstraints<double> a;
  a.copy_from(p.field->get_affine_constraints());
  for (unsigned i = 0; i < R.size(); ++i)
    if (a.is_constrained(i) && a.get_constraint_entries(i)->empty())
      ex.close(s[i], a.get_inhomogeneity(i), 1.0, 1e-11, "prescribed", w + ": prescribed unknown " + std::to_string(i));
}

template <int dim>
void run(Explorer &ex, const std::string &name, const Cfg &c, const std::vector<StepSym> &h, double *stats)
{
  const std::string key = "dim=" + std::to_string(dim) + ";options=" + name + ";history=" + hist_str(h);
  if (!ex.begin(key)) return;
  try
    {
      Problem<dim> p(c, ex.workdir);
      int k = 0;
      for (auto &x : h)
        {
          ++k;
          stats[0]++;
          const std::string w = "step " + std::to_string(k);
          if (!p.step(x.inc * c.amp, x.dt))
            {
              if (!p.not_converged()) ex.fail("exception", w + ": " + p.error);
              ex.note("steps_not_converged", 1);
              break;
            }
          stats[1]++;
          auto s = p.values(p.field->solution);
          bool finite = true;
          for (double v : s) finite &= std::isfinite(v);
          ex.check(finite, "not-finite", w + ": the solution is not finite");
          auto F = p.residual(s, p.time->get_next_time());
          if (s08) internals(ex, p, w);
          else balance(ex, p, s, F, w);
          ex.state(name + hist_str(std::vector<StepSym>(h.begin(), h.begin() + k)) + std::to_string(dim));
          ex.transition();
          p.accept();
        }
    }
  catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
  ex.trace();
  ex.sample(key);
  ex.end();
}

int main(int argc, char **argv)
{
  Init init(argc, argv);
  Explorer ex(argc, argv);
  for (int i = 1; i + 1 < argc; ++i)
    {
      if (std::string(argv[i]) == "--which") s08 = std::string(argv[i + 1]) == "S08";
      if (std::string(argv[i]) == "--mode") brief = std::string(argv[i + 1]) == "brief";
    }
  if (!getenv("VP_LOUD")) std::cout.setstate(std::ios::failbit);
  double stats[2] = {0, 0};
  const std::vector<StepSym> full = {{1, 1}, {-1, 0.5}, {0, 2}, {2.5, 1}};
  const std::vector<StepSym> small = {{1, 1}, {-1.5, 0.5}};
  auto go = [&](auto tag, const std::string &name, const Cfg &c, int d) {
    constexpr int dim = decltype(tag)::value;
    const bool slow = c.algo == RTP::SolutionAlgorithm::Embracing; // operator copies in the reduced system
    const bool deep = (dim == 2 ? d <= 1 : d == 0) && !brief && !(slow && ex.quick);
    const auto &al = deep ? full : small;
    const int depth = ex.quick ? (deep ? 3 : 2) : (deep ? (dim == 2 && !slow ? 4 : 3) : 3);
    for (auto &h : histories(al, depth)) run<dim>(ex, name, c, h, stats);
  };
  auto all = [&](auto tag) {
    for (auto &b : bases(decltype(tag)::value))
      for_each_config(decltype(tag)::value, brief ? 1 : ex.quick ? b.depth_quick : b.depth_thorough,
                      [&](const std::string &n, const Cfg &c, int d) { go(tag, b.name + n, c, d + (b.name != "")); }, nullptr, b.c);
  };
  all(std::integral_constant<int, 2>());
  all(std::integral_constant<int, 3>());
  ex.note("steps", stats[0]);
  ex.note("steps_converged", stats[1]);
  return ex.finish();
}
