// H01: interface history state machine against a reference model.
#include "gcp_util.h"
#include <gCP/quadrature_point_history.h>
using namespace vp;

struct Cfg { double sc, dc, beta, A, decay, exponent, endurance, chi; bool zero; };
struct Model
{
  double d = 0, m = 0, td = 0, tm = 0, old = 0;
  double eff_traction = 0, eff_open = 0;
};
struct Op { int k; double a, b; std::string name; };

template <int dim>
void run(Explorer &ex)
{
  using P = gCP::InterfaceQuadraturePointHistory<dim>;
  std::vector<Op> ops;
  ops.push_back({0, 0, 0, "store"});
  ops.push_back({1, 0, 0, "reset"});
  for (double x : {0.0, 0.4, 1.5}) ops.push_back({2, x, 0, "ortiz(" + shortnum(x) + ")"});
  for (double x : {0.3, 1.2})
    for (double f : {0.1, 3.0}) ops.push_back({3, x, f, "m1(" + shortnum(x) + ",f=" + shortnum(f) + ")"});
  ops.push_back({4, 0.25, 0, "set(.25)"});
  ops.push_back({5, 0.7, 0.2, "open(.7n+.2t)"});
  ops.push_back({5, -0.7, 0.2, "open(-.7n+.2t)"});
  ops.push_back({6, -0.5, 0.1, "open4(-.5n+.1t)"});
  ops.push_back({6, 0.5, 0.1, "open4(.5n+.1t)"});
  ops.push_back({7, 0, 0, "init-again"});
  const int depth = ex.quick ? 4 : 5;
  std::vector<Cfg> cfgs;
  for (double dc : {1.0, 0.05})
    for (double expo : {1.0, 2.5})
      for (double e : {0.0, 0.5})
        for (double A : {1.0, 0.2})
        for (bool z : {false, true})
          cfgs.push_back({2.0, dc, dc == 1.0 ? 0.5 : 2.0, A, 0.1, expo, e, dc == 1.0 ? 1.0 : 0.7, z});
  for (auto &c : cfgs)
   for (int group = 0; group < 3; ++group)
    {
      // group 0: Ortiz model ops, 1: M1 ops, 2: both mixed (shorter)
      if (group == 0 && (c.exponent != 1.0 || c.endurance != 0.0 || c.A != 1.0)) continue;
      std::vector<int> use;
      for (size_t i = 0; i < ops.size(); ++i)
        {
          if (ops[i].k == 2 && group == 1) continue;
          if (ops[i].k == 3 && group == 0) continue;
          use.push_back(i);
        }
      const int D = group == 2 ? depth - 1 : depth;
      const std::string key = "dim=" + std::to_string(dim) + ";dc=" + shortnum(c.dc) + ";exp=" + shortnum(c.exponent) +
                              ";end=" + shortnum(c.endurance) + ";A=" + shortnum(c.A) + ";zero=" + (c.zero ? "1" : "0") + ";group=" + std::to_string(group);
      if (!ex.begin(key)) continue;
      ex.state_domain = key;
      gCP::RunTimeParameters::DamageEvolution de, de2;
      gCP::RunTimeParameters::CohesiveLawParameters cl, cl2;
      de.damage_accumulation_constant = c.A;
      de.damage_decay_constant = c.decay;
      de.damage_decay_exponent = c.exponent;
      de.endurance_limit = c.endurance;
      de.flag_set_damage_to_zero = c.zero;
      cl.critical_cohesive_traction = c.sc;
      cl.critical_opening_displacement = c.dc;
      cl.tangential_to_normal_stiffness_ratio = c.beta;
      de2 = de;
      de2.damage_accumulation_constant = 9;
      de2.flag_set_damage_to_zero = !c.zero;
      cl2 = cl;
      cl2.critical_opening_displacement = 77;
      dealii::Tensor<1, dim> n, t, base;
      n[0] = 0.6; n[1] = 0.8;
      t[0] = -0.8; t[1] = 0.6;
      base[0] = 0.37; base[1] = -1.21;
      P p0;
      p0.init(de, cl);
      if (p0.get_damage_variable() != 0.0 || p0.get_max_effective_opening_displacement() != 0.0)
        ex.fail("initial-state", "a freshly initialised point is not undamaged");
      std::string path;
      long leaf = 0;
      std::function<void(const P &, const Model &, int, double, bool)> rec =
        [&](const P &p, const Model &m, int d, double committed, bool pure) {
          for (int oi : use)
            {
              const Op &o = ops[oi];
              P q(p);
              Model r(m);
              double committed2 = committed;
              bool pure2 = pure;
              switch (o.k)
                {
                  case 0: q.store_current_values(); r.td = r.d; r.tm = r.m; break;
                  case 1: q.reset_values(); r.d = r.td; r.m = r.tm; break;
                  case 2:
                    {
                      q.update_values(o.a);
                      r.m = std::max(r.tm, o.a);
                      const double x = r.m / c.dc;
                      r.d = c.zero ? 0.0 : 1.0 - (1.0 + x) * std::exp(-x);
                      break;
                    }
                  case 3:
                    {
                      q.update_values(o.a, c.chi, o.b);
                      r.m = std::max(r.tm, o.a);
                      r.d = r.td + c.A * c.chi * std::max(0.0, o.a - r.old) *
                                     std::pow(1.0 - r.td + c.decay, c.exponent) * std::max(0.0, o.b - c.endurance);
                      r.d = std::min(1.0, r.d);
                      if (c.zero) r.d = 0.0;
                      break;
                    }
                  case 4: q.set(o.a); r.d = o.a; pure2 = false; break;
                  case 5:
                  case 6:
                    {
                      dealii::Tensor<1, dim> jump = o.a * n + o.b * t;
                      const double nn = std::max(0.0, o.a);
                      r.old = std::sqrt(nn * nn + c.beta * c.beta * o.b * o.b);
                      if (o.k == 5)
                        q.store_effective_opening_displacement(base + jump, base, n);
                      else
                        {
                          q.store_effective_opening_displacement(base + jump, base, n, 1.75);
                          r.eff_traction = 1.75;
                          r.eff_open = r.old;
                        }
                      break;
                    }
                  case 7: q.init(de2, cl2); break;
                }
              ex.transition();
              const size_t len = path.size();
              path += (path.empty() ? "" : " ") + o.name;
              const std::string w = "after [" + path + "] ";
              ex.close(q.get_damage_variable(), r.d, 1.0, 1e-12, "damage", w + "damage");
              ex.close(q.get_max_effective_opening_displacement(), r.m, 1.0, 1e-12, "max-opening", w + "maximum opening");
              ex.close(q.get_old_effective_opening_displacement(), r.old, 1.0, 1e-12, "old-opening", w + "previous effective opening");
              if (o.k == 6)
                {
                  ex.close(q.get_effective_cohesive_traction(), r.eff_traction, 1.0, 1e-12, "eff-traction", w + "effective traction");
                  ex.close(q.get_effective_opening_displacement(), r.eff_open, 1.0, 1e-12, "eff-opening", w + "effective opening");
                }
              ex.check(q.get_damage_variable() >= 0.0 && q.get_damage_variable() <= 1.0, "damage-range", w + "damage outside [0,1]: " + num(q.get_damage_variable()));
              if (o.k == 0)
                {
                  if (group != 2 && pure2)
                    ex.check(q.get_damage_variable() >= committed - 1e-14, "healing", w + "committed damage decreased from " + num(committed) + " to " + num(q.get_damage_variable()));
                  committed2 = q.get_damage_variable();
                }
              ex.state(num(r.d) + "," + num(r.m) + "," + num(r.td) + "," + num(r.tm) + "," + num(r.old));
              if (d + 1 < D)
                rec(q, r, d + 1, committed2, pure2);
              else
                { ex.trace(); if (leaf++ == 5) ex.sample(key + " : " + path); }
              path.resize(len);
            }
        };
      rec(p0, Model(), 0, 0.0, true);
      ex.end();
    }
}

template <int dim>
void interface_data(Explorer &ex)
{
  // the (older) maximum-opening record: at most one update per prepared round
  if (!ex.begin("dim=" + std::to_string(dim) + ";interface-data")) return;
  ex.state_domain = "id";
  dealii::Tensor<1, dim> zero, v1, v2;
  v1[0] = 0.3; v1[1] = -0.4;
  v2[0] = -1.2; v2[1] = 0.5;
  std::vector<dealii::Tensor<1, dim>> vs = {zero, v1, v2};
  std::vector<double> norms = {0, 0.5, 1.3};
  const int D = ex.quick ? 6 : 8;
  std::function<void(const gCP::InterfaceData<dim> &, double, bool, int)> rec =
    [&](const gCP::InterfaceData<dim> &p, double val, bool upd, int d) {
      for (int o = 0; o < 4; ++o)
        {
          gCP::InterfaceData<dim> q(p);
          double v = val;
          bool u = upd;
          if (o == 0) { q.prepare_for_update_call(); u = false; }
          else { q.update(zero + vs[o - 1], zero); if (!u) v = std::max(v, norms[o - 1]); u = true; }
          ex.transition();
          ex.state(num(v) + (u ? "u" : "-"));
          ex.close(q.get_value(), v, 1.0, 1e-14, "interface-data", "recorded maximum after op " + std::to_string(o));
          if (d + 1 < D) rec(q, v, u, d + 1); else ex.trace();
        }
    };
  gCP::InterfaceData<dim> p;
  p.init(0.25);
  p.prepare_for_update_call();
  rec(p, 0.25, false, 0);
  ex.end();
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  run<2>(ex);
  run<3>(ex);
  interface_data<2>(ex);
  interface_data<3>(ex);
  return ex.finish();
}
