// S02: at enumerated trial states the assembled residual is the independent one, and every column of the
// assembled system matrix is the derivative of the (documented, regularised) residual.
#include "solver_options.h"
#include <unistd.h>
using namespace vp;

template <int dim>
void run(Explorer &ex, const std::string &name, const Cfg &c, int steps, int pattern)
{
  const std::string key = "dim=" + std::to_string(dim) + ";options=" + name + ";steps=" + std::to_string(steps) + ";pattern=" + std::to_string(pattern);
  if (!ex.begin(key)) return;
  try
    {
      Problem<dim> p(c, ex.workdir);
      const double amp[] = {0.01, 0.05, 0.03, 0.002}, ph[] = {1.0, 2.2, 4.1, 5.5}, dts[] = {1.0, 0.4, 2.0, 0.1};
      if (!trial_state(p, steps, amp[pattern], ph[pattern]))
        {
          ex.note("states_not_reached", 1);
          ex.end();
          return;
        }
      auto &s = *p.solver;
      p.dt = dts[pattern];
      p.time->set_desired_next_step_size(p.dt);
      const double t = p.time->get_next_time();
      s.reset_and_update_internal_variables();
      s.assemble_residual();
      s.assemble_jacobian();
      const unsigned n = p.field->n_dofs();
      const auto x = p.values(s.trial_solution), r = p.values(s.residual);
      auto &con = s.internal_newton_method_constraints;
      auto F = p.restricted(p.residual(x, t));
      typename Problem<dim>::Star star{x, p.trial};
      double scale = 0;
      for (unsigned i = 0; i < n; ++i)
        if (!con.is_constrained(i)) scale = std::max(scale, std::abs(F[i]));
      for (unsigned i = 0; i < n; ++i)
        if (!con.is_constrained(i)) ex.close(-r[i], F[i], scale, 1e-9, "residual", "residual of unknown " + std::to_string(i));
        else ex.check(r[i] == 0, "constrained-residual", "residual of the prescribed unknown " + std::to_string(i) + " is " + num(r[i]));
      // unknowns tied to others move with them
      std::vector<std::vector<std::pair<unsigned, double>>> tied(n);
      for (unsigned i = 0; i < n; ++i)
        if (con.is_constrained(i))
          for (auto &e : *con.get_constraint_entries(i)) tied[e.first].push_back({i, e.second});
      auto moved = [&](unsigned j, double d) {
        auto y = x;
        y[j] += d;
        for (auto &e : tied[j]) y[e.first] += e.second * d;
        return y;
      };
      std::vector<std::vector<double>> J(n, std::vector<double>(n));
      double js = 0;
      for (unsigned i = 0; i < n; ++i)
        for (unsigned j = 0; j < n; ++j)
          {
            J[i][j] = s.jacobian.el(i, j);
            if (!con.is_constrained(i) && !con.is_constrained(j)) js = std::max(js, std::abs(J[i][j]));
          }
      // entries are judged on the scale of their row (the equation of one test function)
      std::vector<double> rs(n, 1e-3 * js);
      for (unsigned i = 0; i < n; ++i)
        for (unsigned j = 0; j < n; ++j)
          if (!con.is_constrained(i) && !con.is_constrained(j)) rs[i] = std::max(rs[i], std::abs(J[i][j]));
      const double h = 1e-5;
      unsigned bad = 0;
      for (unsigned j = 0; j < n; ++j)
        {
          if (con.is_constrained(j))
            {
              for (unsigned i = 0; i < n; ++i)
                if (i != j) ex.check(J[i][j] == 0, "constrained-column", "entry (" + std::to_string(i) + "," + std::to_string(j) + ") of a prescribed unknown is " + num(J[i][j]));
              ex.check(J[j][j] != 0, "constrained-column", "zero diagonal of the prescribed unknown " + std::to_string(j));
              continue;
            }
          auto R = [&](double d) { return p.restricted(p.residual(moved(j, d), t, &star)); };
          const auto a = R(h), b = R(-h);
          // a kink of the law (contact, first opening, flow direction) within h of the state: no derivative to compare
          bool kink = false;
          {
            const auto a2 = R(h / 16), b2 = R(-h / 16), o = R(0);
            for (unsigned i = 0; i < n && !kink; ++i)
              {
                if (con.is_constrained(i)) continue;
                const double d1 = (a[i] - b[i]) / (2 * h), d2 = (a2[i] - b2[i]) / (2 * h / 16), s2 = (a2[i] - 2 * o[i] + b2[i]) / (h / 16);
                kink = std::abs(d1 - d2) > 5e-7 * rs[i] || std::abs(s2) > 1e-2 * rs[i];
              }
          }
          if (kink)
            {
              ex.note("columns_at_a_kink", 1);
              continue;
            }
          for (unsigned i = 0; i < n; ++i)
            {
              if (con.is_constrained(i))
                {
                  ex.check(J[i][j] == 0, "constrained-row", "entry (" + std::to_string(i) + "," + std::to_string(j) + ") of a prescribed unknown is " + num(J[i][j]));
                  continue;
                }
              const double d = (a[i] - b[i]) / (2 * h);
              ex.note_max("largest_tangent_error_over_scale", std::abs(J[i][j] - d) / rs[i]);
              if (!ex.close(J[i][j], d, rs[i], 1e-6, "tangent", "entry (" + std::to_string(i) + "," + std::to_string(j) + ") of the system matrix") && ++bad > 3) break;
            }
          ex.transition();
          if (bad > 3) break;
        }
      ex.state(key);
    }
  catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
  ex.trace();
  ex.sample(key);
  ex.end();
}

int main(int argc, char **argv)
{
  Init init(argc, argv);
  Explorer ex(argc, argv);
  if (!getenv("VP_LOUD")) std::cout.setstate(std::ios::failbit);
  const std::set<std::string> numerical = {"krylov", "line", "extra", "reset"};
  auto physics = [&](const Opt &o) { return !numerical.count(o.group); };
  auto all = [&](auto tag) {
    constexpr int dim = decltype(tag)::value;
    for (auto &b : bases(dim))
      for_each_config(dim, ex.quick ? (dim == 2 ? 2 : 1) : (dim == 2 ? 3 : 2), [&](const std::string &n, const Cfg &c, int d) {
        if (dim == 3 && c.pu == 2 && ex.quick) return;
        const int ns = d < 2 ? 3 : 2, np = d < 2 && dim == 2 ? 4 : d < 2 ? 2 : 1;
        for (int st = 0; st < ns; ++st)
          for (int k = 0; k < np; ++k) run<dim>(ex, b.name + n, c, st, d < 2 ? k : (st + 1) % 4);
      }, physics, b.c);
  };
  all(std::integral_constant<int, 2>());
  all(std::integral_constant<int, 3>());
  return ex.finish();
}
