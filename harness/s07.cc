// S07: the dimensionless formulation describes the same problem as the dimensional one.
#include "solver_options.h"
using namespace vp;

struct Ref { double L, U, C, g, T; };

template <int dim>
struct Record
{
  std::vector<double> u;                                // by unknown, physical units
  std::vector<double> g;                                // slip resistances, physical units
};

template <int dim>
bool take(Problem<dim> &p, const Ref &r, Record<dim> &o)
{
  auto s = p.values(p.field->solution);
  std::vector<dealii::types::global_dof_index> idx;
  o.u = s;
  std::vector<char> done(s.size(), 0);
  for (auto &cell : p.field->get_dof_handler().active_cell_iterators())
    {
      idx.resize(cell->get_fe().n_dofs_per_cell());
      cell->get_dof_indices(idx);
      for (unsigned i = 0; i < idx.size(); ++i)
        {
          const int k = p.local_component(cell->get_fe().system_to_component_index(i).first, cell->material_id());
          if (k < 0 || k >= dim || done[idx[i]]++) continue;
          o.u[idx[i]] = s[idx[i]] * r.U;
        }
      for (auto &q : p.solver->quadrature_point_history.get_data(cell))
        for (double g : q->get_slip_resistances()) o.g.push_back(g * r.g);
    }
  return true;
}

// the dimensional runs, by configuration and history
template <int dim>
struct Runs
{
  std::map<std::string, std::vector<Record<dim>>> done;
};

template <int dim>
std::vector<Record<dim>> solve(const std::string &dir, Cfg c, const Ref *r, const std::vector<StepSym> &h, std::string &error)
{
  const Ref one{1, 1, 1, 1, 1};
  std::function<void(RTP::SolverParameters &)> tweak;
  if (r)
    {
      c.scale_x = r->L;
      c.scale_t = r->C * r->U / r->L;
      c.scale_b = c.scale_t / r->L;
      c.scale_e = r->U / r->L;
      tweak = [r](RTP::SolverParameters &s) {
        auto &d = s.dimensionless_form_parameters;
        d.flag_solve_dimensionless_problem = true;
        d.characteristic_quantities.length = r->L;
        d.characteristic_quantities.displacement = r->U;
        d.characteristic_quantities.stiffness = r->C;
        d.characteristic_quantities.slip_resistance = r->g;
        d.characteristic_quantities.time = r->T;
        d.init(s.constitutive_laws_parameters);
      };
    }
  std::vector<Record<dim>> o;
  Problem<dim> p(c, dir, nullptr, tweak);
  for (auto &x : h)
    {
      if (!p.step(x.inc * c.amp / (r ? r->U : 1.0), x.dt)) { error = p.not_converged() ? "" : p.error; break; }
      o.emplace_back();
      take(p, r ? *r : one, o.back());
      p.field->update_solution_vectors();
      p.time->advance_time();
      p.old_sol = p.values(p.field->old_solution);
    }
  return o;
}

template <int dim>
void run(Explorer &ex, const std::string &name, const Cfg &c, const std::vector<Ref> &refs, const std::vector<StepSym> &h)
{
  std::vector<Record<dim>> base;
  bool have = false;
  for (unsigned a = 0; a < refs.size(); ++a)
    {
      const Ref &r = refs[a];
      const std::string key = "dim=" + std::to_string(dim) + ";options=" + name + ";units=" + num(r.L) + "," + num(r.U) + "," + num(r.C) + "," + num(r.g) + "," + num(r.T) + ";history=" + hist_str(h);
      if (!ex.begin(key)) continue;
      try
        {
          std::string e;
          if (!have) base = solve<dim>(ex.workdir, c, nullptr, h, e);
          have = true;
          auto o = solve<dim>(ex.workdir, c, &r, h, e);
          if (!e.empty()) ex.fail("exception", e);
          // each formulation has its own tolerance in its own units; a history ends where either fails
          if (o.size() != base.size()) ex.note("histories_of_different_length", 1);
          for (unsigned k = 0; k < std::min(o.size(), base.size()); ++k)
            {
              const std::string w = "step " + std::to_string(k + 1);
              ex.check(o[k].u.size() == base[k].u.size() && o[k].g.size() == base[k].g.size(), "size", w);
              double du = 0, dg = 0;
              for (unsigned i = 0; i < o[k].u.size(); ++i) du = std::max(du, std::fabs(o[k].u[i] - base[k].u[i]) / c.amp);
              for (unsigned i = 0; i < o[k].g.size(); ++i) dg = std::max(dg, std::fabs(o[k].g[i] - base[k].g[i]) / c.g0);
              ex.note_max("largest_difference", std::max(du, dg));
              ex.check(du <= 2e-6, "fields", w + ": displacement or slip differs by " + num(du) + " (relative) from the dimensional solution");
              ex.check(dg <= 2e-6, "slip-resistance", w + ": slip resistance differs by " + num(dg) + " (relative) from the dimensional solution");
              ex.state(key.substr(0, key.find(";history")) + hist_str(std::vector<StepSym>(h.begin(), h.begin() + k + 1)));
              ex.transition();
            }
        }
      catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 500)); }
      ex.trace();
      ex.sample(key);
      ex.end();
    }
}

int main(int argc, char **argv)
{
  Init init(argc, argv);
  Explorer ex(argc, argv);
  if (!getenv("VP_LOUD")) std::cout.setstate(std::ios::failbit);
  std::vector<Ref> full, few;
  for (double L : {1.0, 4.0, 0.5})
    for (double U : {1.0, 0.25})
      for (double C : {1.0, 8.0})
        for (double g : {1.0, 0.5}) full.push_back({L, U, C, g, 1.0});
  full.push_back({2.0, 0.5, 2.0, 0.25, 7.0});
  full.push_back({1.0, 1.0, 1.0, 1.0, 3.0});
  few = {{4.0, 0.25, 8.0, 0.25, 1.0}, {1.0, 0.25, 8.0, 2.0, 1.0} /* fourth number is one */, {0.5, 0.25, 1.0, 0.5, 2.0} /* likewise */};
  const std::set<std::string> skip = {"krylov", "extra"};
  auto all = [&](auto tag) {
    constexpr int dim = decltype(tag)::value;
    for (auto &b : bases(dim))
      for_each_config(dim, ex.quick ? (dim == 2 ? 2 : 1) : (dim == 2 ? 2 : 2), [&](const std::string &n, const Cfg &c, int d) {
        if (c.dec || c.gb == RTP::BoundaryConditionsAtGrainBoundaries::Microtraction) return; // not offered by the solver
        Cfg k = c;
        k.tol = 1e-10;
        const int depth = d <= 1 ? (ex.quick ? 2 : 3) : (ex.quick ? 1 : 2);
        for (auto &h : histories(std::vector<StepSym>{{1, 1}, {-1.5, 0.5}}, depth)) run<dim>(ex, b.name + n, k, d == 0 || !ex.quick ? full : few, h);
      }, [&](const Opt &o) { return !skip.count(o.group); }, b.c);
  };
  all(std::integral_constant<int, 2>());
  all(std::integral_constant<int, 3>());
  return ex.finish();
}
