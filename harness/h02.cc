// H02: slip-resistance history state machine against a reference model.
#include "gcp_util.h"
#include <gCP/quadrature_point_history.h>
using namespace vp;

template <int dim>
void run(Explorer &ex)
{
  using P = gCP::QuadraturePointHistory<dim>;
  const int depth = ex.quick ? 5 : 6;
  for (unsigned ns : {1u, 2u, 3u})
    for (double g0 : {1.0, 0.0, 12.5})
      for (double H : {0.0, 2.0, 30.0})
        for (double q : {0.0, 1.4, 1.0})
          for (double chr : {1.0, 4.0})
            for (bool perfect : {false, true})
              {
                const std::string key = "dim=" + std::to_string(dim) + ";slips=" + std::to_string(ns) + ";g0=" + shortnum(g0) + ";H=" + shortnum(H) +
                                        ";q=" + shortnum(q) + ";char=" + shortnum(chr) + ";perfect=" + (perfect ? "1" : "0");
                if (!ex.begin(key)) continue;
                ex.state_domain = key;
                gCP::RunTimeParameters::HardeningLaw hl;
                hl.initial_slip_resistance = g0;
                hl.linear_hardening_modulus = H;
                hl.hardening_parameter = q;
                hl.flag_perfect_plasticity = perfect;
                // two quadrature points; updates refer to point 1 (0 holds decoys) and to point 0
                struct Upd { unsigned qp; std::vector<std::vector<double>> s, o; std::string name; };
                std::vector<Upd> upds;
                const double lat[3][3] = {{0.0, 0.02, -0.03}, {-0.01, 0.0, 0.5}, {0.25, -0.04, 0.0}};
                for (int v = 0; v < 3; ++v)
                  {
                    Upd u;
                    u.qp = v == 2 ? 0 : 1;
                    for (unsigned a = 0; a < ns; ++a)
                      {
                        std::vector<double> s = {7.0 + a, 7.0 + a}, o = {-3.0 * (a + 1), -3.0 * (a + 1)};
                        s[u.qp] = lat[v][a];
                        o[u.qp] = v == 1 ? lat[0][a] : 0.01 * (a + 1) * (v ? -1 : 0);
                        u.s.push_back(s);
                        u.o.push_back(o);
                      }
                    u.name = "update" + std::to_string(v);
                    upds.push_back(u);
                  }
                P p0;
                bool threw = false;
                try { p0.get_slip_resistances(); } catch (...) { threw = true; }
                ex.check(threw, "uninitialised-read", "reading an uninitialised point is accepted");
                p0.init(hl, ns, chr);
                std::vector<double> g(ns, g0 / chr), tmp = g;
                std::string path;
                auto cmp = [&](const P &p, const std::vector<double> &g, const std::vector<double> &tmp, const std::string &w) {
                  auto a = p.get_slip_resistances();
                  auto b = p.get_old_slip_resistances();
                  if (!ex.check(a.size() == ns && b.size() == ns, "size", w + "number of slip resistances")) return;
                  for (unsigned i = 0; i < ns; ++i)
                    {
                      ex.close(a[i], g[i], 1.0 + g[i], 1e-12, "resistance", w + "slip resistance " + std::to_string(i));
                      ex.close(p.get_slip_resistance(i), g[i], 1.0 + g[i], 1e-12, "resistance", w + "slip resistance (single) " + std::to_string(i));
                      ex.close(b[i], tmp[i], 1.0 + tmp[i], 1e-12, "old-resistance", w + "stored slip resistance " + std::to_string(i));
                      ex.close(p.get_old_slip_resistance(i), tmp[i], 1.0 + tmp[i], 1e-12, "old-resistance", w + "stored slip resistance (single) " + std::to_string(i));
                    }
                };
                cmp(p0, g, tmp, "initially: ");
                bool sampled = false;
                std::function<void(const P &, const std::vector<double> &, const std::vector<double> &, int)> rec =
                  [&](const P &p, const std::vector<double> &g, const std::vector<double> &tmp, int d) {
                    for (int o = 0; o < 6; ++o)
                      {
                        P qd(p);
                        std::vector<double> g2 = g, t2 = tmp;
                        std::string name;
                        if (o == 0) { qd.store_current_values(); t2 = g2; name = "store"; }
                        else if (o == 1) { qd.reset_values(); g2 = t2; name = "reset"; }
                        else if (o == 5) { if (d) continue; qd.init(hl, ns, chr); g2.assign(ns, g0 / chr); t2 = g2; name = "init"; }
                        else
                          {
                            const Upd &u = upds[o - 2];
                            name = u.name;
                            qd.update_values(u.qp, u.s, u.o);
                            g2 = t2;
                            if (!perfect)
                              for (unsigned a = 0; a < ns; ++a)
                                for (unsigned b = 0; b < ns; ++b)
                                  g2[a] += H / chr * (a == b ? 1.0 : q) * std::abs(u.s[b][u.qp] - u.o[b][u.qp]);
                          }
                        ex.transition();
                        const size_t len = path.size();
                        path += (path.empty() ? "" : " ") + name;
                        cmp(qd, g2, t2, "after [" + path + "] ");
                        std::string st;
                        for (double x : g2) st += num(x) + ",";
                        for (double x : t2) st += num(x) + ";";
                        ex.state(st);
                        if (d + 1 < depth) rec(qd, g2, t2, d + 1);
                        else { ex.trace(); if (!sampled) { sampled = true; ex.sample(key + " : " + path); } }
                        path.resize(len);
                      }
                  };
                rec(p0, g, tmp, 0);
                ex.end();
              }
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  run<2>(ex);
  run<3>(ex);
  return ex.finish();
}
