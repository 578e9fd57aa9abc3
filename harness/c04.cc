// C04: gradient (vectorial) microstress from its defect energy.
#include "gcp_util.h"
#include <gCP/constitutive_laws.h>
using namespace vp;
namespace RTP = gCP::RunTimeParameters;

template <int dim>
void run(Explorer &ex)
{
  using namespace dealii;
  std::vector<Row> angles;
  if (dim == 2)
    for (double a : {0., 30., 45., -60., 137.5, 90.}) angles.push_back({a});
  else
    for (double a : {0., 30., 200.}) for (double b : {0., 54.7, 90.}) for (double c : {0., 45., 123.}) angles.push_back({a, b, c});
  std::vector<Row> d, n;
  if (dim == 2) { d = {{1, 0}, {1, 2}}; n = {{0, 1}, {-2, 1}}; }
  else { d = {{1, 0, 0}, {0, 1, -1}, {-1, 2, 0}}; n = {{0, 0, 1}, {1, 1, 1}, {2, 1, 3}}; }
  std::vector<double> lv = {0.0, 1.0, -0.25, 40.0, 1e-4};
  if (ex.quick && dim == 3) lv = {0.0, 1.0, -0.25, 40.0};
  for (size_t a = 0; a < angles.size(); ++a)
    for (double ni : {1.0, 1.25, 1.5, 2.0, 2.5, 3.0, 4.0})
      for (double L : {0.0, 0.3, 2.0})
        for (double g0 : {1.0, 20.0})
          for (bool dimless : {false, true})
            {
              std::vector<Row> an = {angles[a], angles[(a * 5 + 2) % angles.size()]};
              const std::string key = "dim=" + std::to_string(dim) + ";angles=" + rowstr(an[0]) + "|" + rowstr(an[1]) + ";n=" + shortnum(ni) + ";l=" + shortnum(L) + ";g0=" + shortnum(g0) + ";dimless=" + std::to_string(dimless);
              if (!ex.begin(key)) continue;
              auto cd = make_crystals<dim>(ex.workdir, an, d, n);
              RTP::VectorialMicrostressLawParameters prm;
              prm.energetic_length_scale = L;
              prm.initial_slip_resistance = g0;
              prm.defect_energy_index = ni;
              prm.regularization_parameter = 1e-6;
              gCP::ConstitutiveLaws::VectorialMicrostressLaw<dim> law(cd, prm);
              bool threw = false;
              try { law.get_vectorial_microstress(0, 0, Tensor<1, dim>()); } catch (...) { threw = true; }
              ex.check(threw, "uninitialised", "an uninitialised law is used");
              law.init(dimless);
              const double K = dimless ? 1.0 : g0 * std::pow(L, ni);
              for (unsigned c = 0; c < 2; ++c)
                for (unsigned k = 0; k < d.size(); ++k)
                  {
                    double R[3][3];
                    rotation(an[c], R);
                    double l1 = 0, l2 = 0;
                    for (int i = 0; i < dim; ++i) { l1 += d[k][i] * d[k][i]; l2 += n[k][i] * n[k][i]; }
                    Tensor<1, 3> s, m;
                    for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) { s[i] += R[i][j] * d[k][j] / std::sqrt(l1); m[i] += R[i][j] * n[k][j] / std::sqrt(l2); }
                    Tensor<1, 3> t;
                    if (dim == 3) t = cross_product_3d(m, s);
                    auto F = [&](double x) { return std::abs(x) < 1e-15 ? 0.0 : K * std::pow(std::abs(x), ni - 1) * (x > 0 ? 1 : -1); };
                    auto D = [&](double x) { return K * (ni - 1) * std::pow(std::abs(x), ni - 2); };
                    std::vector<int> idx(dim, 0);
                    do
                      {
                        // gradient given in the slip system's frame: components along s, m (and t)
                        Tensor<1, dim> g;
                        double gs = lv[idx[0]], gm = lv[idx[1]], gt = dim == 3 ? lv[idx[dim - 1]] : 0.0;
                        for (int i = 0; i < dim; ++i) g[i] = gs * s[i] + gm * m[i] + gt * t[i];
                        if (gs == 0 && gm == 0 && gt == 0) g = Tensor<1, dim>();
                        // round-off of g in the near-singular regime: components that are exactly zero stay uncertain
                        const double ps = [&] { double x = 0; for (int i = 0; i < dim; ++i) x += s[i] * g[i]; return x; }();
                        const double pt = [&] { double x = 0; for (int i = 0; i < dim; ++i) x += t[i] * g[i]; return x; }();
                        const bool singular = ni < 2 && g.norm() > 0 && (std::abs(ps) < 1e-9 * g.norm() || (dim == 3 && std::abs(pt) < 1e-9 * g.norm()));
                        const std::string w = "crystal " + std::to_string(c) + " system " + std::to_string(k) + " gradient (s,m,t)=" + shortnum(gs) + "," + shortnum(gm) + "," + shortnum(gt);
                        auto v = law.get_vectorial_microstress(c, k, g);
                        ex.transition();
                        const double gn = g.norm();
                        bool finite = true;
                        for (int i = 0; i < dim; ++i) finite = finite && std::isfinite(v[i]);
                        if (!ex.check(finite, "not-finite", "microstress is not finite; " + w)) continue;
                        if (gn == 0) { ex.check(v.norm() == 0, "zero", "non-zero microstress without a gradient; " + w); }
                        // exact law (components below round-off of the gradient carry an uncertainty)
                        const double xs = std::min(gs != 0 ? std::abs(gs) : 1e300, dim == 3 && gt != 0 ? std::abs(gt) : 1e300);
                        const double rnd = ni < 2 && xs < 1e300 ? 1e-13 * K * gn * std::pow(xs, ni - 2) : 0.0;
                        const double eps = rnd + (ni < 2 ? K * std::pow(1e-13 * gn + 1e-300, ni - 1) : 0.0);
                        if (!singular || ni > 1)
                          for (int i = 0; i < dim; ++i)
                            {
                              const double ref = F(gs) * s[i] + F(gt) * t[i];
                              ex.check(std::abs(v[i] - ref) <= 1e-12 * K * (std::pow(gn, ni - 1) + 1e-30) + (singular ? 4 * eps : rnd), "value", "component " + std::to_string(i) + ": got " + num(v[i]) + " expected " + num(ref) + "; " + w);
                            }
                        double vm = 0;
                        for (int i = 0; i < dim; ++i) vm += v[i] * m[i];
                        if (!singular) ex.check(std::abs(vm) <= 1e-12 * K * (std::pow(gn, ni - 1) + 1e-300) + (singular ? 4 * eps : rnd), "normal", "microstress along the slip-plane normal; " + w);
                        if (ni < 2 && (gn == 0 || singular || (dim == 3 && (gs == 0 || gt == 0))))
                          { // derivative unbounded there: only finiteness
                            auto J = law.get_jacobian(c, k, g);
                            ex.check(std::isfinite(J.norm()), "not-finite", "jacobian is not finite; " + w);
                            continue;
                          }
                        auto J = law.get_jacobian(c, k, g);
                        const double js = K * (ni - 1) * (std::pow(std::abs(gs) + (ni >= 2 ? gn : 0), ni - 2) + (dim == 3 ? std::pow(std::abs(gt) + (ni >= 2 ? gn : 0), ni - 2) : 0)) + (ni > 2 ? K * 1e10 * std::pow(1e-14 * gn, ni - 2) : 0.0) + 1e-300;
                        for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j)
                          {
                            const double ref = D(gs) * s[i] * s[j] + (dim == 3 ? D(gt) * t[i] * t[j] : 0.0);
                            ex.close(J[i][j], ref, js, ni < 3 ? 1e-9 : 1e-11, "jacobian", "entry " + std::to_string(i) + std::to_string(j) + "; " + w);
                          }
                        Tensor<1, dim> x;
                        for (int r = 0; r < dim; ++r)
                          {
                            x[r] = 1.0 - 0.4 * r;
                            ex.check(x * (J * x) >= -1e-12 * js, "semi-definite", "jacobian not positive semi-definite; " + w);
                          }
                      }
                    while (next(idx, std::vector<int>(dim, lv.size())));
                    ex.state(key + std::to_string(c) + std::to_string(k));
                  }
              ex.trace();
              ex.sample(key);
              ex.end();
            }
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  run<2>(ex);
  run<3>(ex);
  return ex.finish();
}
