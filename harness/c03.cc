// C03: regularised slip-resistance law and its Jacobian.
#include "gcp_util.h"
#include <gCP/constitutive_laws.h>
using namespace vp;
namespace RTP = gCP::RunTimeParameters;

static long double reg(int f, long double x)
{
  const long double pi = 3.14159265358979323846264338327950288L;
  switch (f)
    {
      case 0: return 2 / pi * atanl(pi / 2 * x);
      case 1: return x / sqrtl(1 + x * x);
      case 2: return 2 / pi * atanl(sinhl(pi / 2 * x));
      case 3: return tanhl(x);
      default: return erfl(sqrtl(pi) / 2 * x);
    }
}
static long double dreg(int f, long double x)
{
  const long double pi = 3.14159265358979323846264338327950288L;
  switch (f)
    {
      case 0: return 1 / (1 + pi * pi / 4 * x * x);
      case 1: return powl(1 + x * x, -1.5L);
      case 2: return 1 / coshl(pi / 2 * x);
      case 3: return 1 / (coshl(x) * coshl(x));
      default: return expl(-pi / 4 * x * x);
    }
}
static const char *names[] = {"atan", "sqrt", "gd", "tanh", "erf"};

template <int dim>
void run(Explorer &ex)
{
  const RTP::RegularizationFunction fs[] = {RTP::RegularizationFunction::Atan, RTP::RegularizationFunction::Sqrt, RTP::RegularizationFunction::Gd,
                                            RTP::RegularizationFunction::Tanh, RTP::RegularizationFunction::Erf};
  std::vector<double> xs;                      // rate / regularisation parameter
  for (double x : {0., 1e-9, 1e-3, 0.05, 0.1, 0.5, 1., 1.5, 2., 3., 10., 50., 300., 1e3, 1e5, 1e8}) { xs.push_back(x); if (x > 0) xs.push_back(-x); }
  std::sort(xs.begin(), xs.end());
  for (unsigned ns : {1u, 2u, 3u})
    {
      std::vector<Row> d, n, an;
      for (unsigned k = 0; k < ns; ++k)
        if (dim == 2) { d.push_back({1, (double)k}); n.push_back({-(double)k, 1}); }
        else { d.push_back({1, (double)k, 0}); n.push_back({-(double)k, 1, 0}); }
      an.push_back(dim == 2 ? Row{10.} : Row{10., 20., 30.});
      std::shared_ptr<gCP::CrystalsData<dim>> cd;
      for (int f = 0; f < 5; ++f)
        for (double p : {3e-4, 1.0, 0.05})
          for (double dt : {1e-3, 1.0, 40.0})
            for (int mode = 0; mode < 4; ++mode) // hardening, perfect, rate independent, both
              for (double chr : {1.0, 3.0})
                for (double q : {0.0, 1.4})
                  {
                    const bool perfect = mode & 1, ri = mode & 2;
                    const std::string key = "dim=" + std::to_string(dim) + ";slips=" + std::to_string(ns) + ";reg=" + names[f] + ";p=" + shortnum(p) + ";dt=" + shortnum(dt) +
                                            ";perfect=" + std::to_string(perfect) + ";rate_independent=" + std::to_string(ri) + ";char=" + shortnum(chr) + ";q=" + shortnum(q);
                    if (!ex.begin(key)) continue;
                    if (!cd) cd = make_crystals<dim>(ex.workdir, an, d, n);
                    RTP::ScalarMicrostressLawParameters sp;
                    sp.regularization_function = fs[f];
                    sp.regularization_parameter = p;
                    sp.flag_rate_independent = ri;
                    RTP::HardeningLaw hl;
                    hl.initial_slip_resistance = 1.0;
                    hl.linear_hardening_modulus = 7.0;
                    hl.hardening_parameter = q;
                    hl.flag_perfect_plasticity = perfect;
                    gCP::ConstitutiveLaws::ScalarMicrostressLaw<dim> law(cd, sp, hl, chr);
                    for (double g : {0.0, 1.0, 250.0})
                      for (double g_old : {0.0, 0.3, -0.02})
                        {
                          double prev = -1e300;
                          for (double x : xs)
                            {
                              const double s = g_old + x * p * dt, rate = (s - g_old) / dt;
                              const long double xi = (long double)rate / p;
                              const double v = law.get_scalar_microstress(s, g_old, g, dt);
                              ex.transition();
                              const std::string w = "g=" + num(g) + " rate/p=" + num(xi);
                              const double ref = ri ? g * ((rate > 0) - (rate < 0)) : g * reg(f, xi);
                              ex.close(v, ref, g + 1e-30, 2e-14, "value", "microstress, " + w);
                              ex.check(v * rate >= 0, "dissipation", "negative dissipation, " + w);
                              ex.check(std::abs(v) <= g * (1 + 1e-14), "bound", "microstress exceeds the slip resistance, " + w);
                              ex.check(v >= prev - 1e-14 * g, "monotone", "microstress not monotone in the rate, " + w);
                              prev = v;
                              if (!ri && std::abs(xi) >= 1e5) ex.check(std::abs(v) >= g * (1 - 1e-5), "saturation", "microstress does not approach the slip resistance, " + w);
                              if (g_old == 0.0)
                                ex.close(law.get_scalar_microstress(-s, 0.0, g, dt), -v, g + 1e-30, 1e-14, "odd", "microstress not odd, " + w);
                            }
                        }
                    // Jacobian: all combinations of rates for all slips
                    const std::vector<double> jx = {0., 0.4, -1.0, 3.0, -600.};
                    std::vector<int> idx(ns, 0);
                    do
                      {
                        std::vector<std::vector<double>> s(ns), o(ns);
                        std::vector<double> g(ns);
                        std::vector<double> rate(ns);
                        std::string w = "rates/p=";
                        for (unsigned k = 0; k < ns; ++k)
                          {
                            o[k] = {5.0, 0.01 * k, 1.0};
                            s[k] = {-5.0, 0.01 * k + jx[idx[k]] * p * dt * (1 + 0.1 * k), 2.0};
                            rate[k] = (s[k][1] - o[k][1]) / dt;
                            g[k] = 1.0 + 10.0 * k;
                            w += num(rate[k] / p) + " ";
                          }
                        auto J = law.get_jacobian(1, s, o, g, dt);
                        ex.transition();
                        if (!ex.check(J.m() == ns && J.n() == ns, "jacobian-size", "jacobian has the wrong size")) continue;
                        for (unsigned a = 0; a < ns; ++a)
                          for (unsigned b = 0; b < ns; ++b)
                            {
                              auto S = [&](unsigned k) -> long double { return ri ? (rate[k] > 0) - (rate[k] < 0) : reg(f, rate[k] / (long double)p); };
                              long double r = perfect ? 0.0L : 7.0L / chr * (a == b ? 1.0L : q) * S(a) * S(b);
                              long double sc = 7.0L / chr;
                              if (a == b && !ri) { r += g[a] / dt / p * dreg(f, rate[a] / (long double)p); sc += g[a] / dt / p * dreg(f, rate[a] / (long double)p); }
                              ex.close(J[a][b], r, sc, 1e-11, "jacobian", "entry " + std::to_string(a) + std::to_string(b) + ", " + w);
                              ex.close(J[a][b], J[b][a], sc, 1e-12, "symmetry", "jacobian not symmetric, " + w);
                              // the microstress itself, differentiated numerically (perfect plasticity part)
                              if (a == b && !ri && perfect && std::abs(rate[a] / p) < 10)
                                {
                                  const double h = 1e-3 * p * dt;
                                  auto F = [&](double e) { return law.get_scalar_microstress(s[a][1] + e, o[a][1], g[a], dt); };
                                  const double fd = (8 * (F(h) - F(-h)) - (F(2 * h) - F(-2 * h))) / (12 * h);
                                  ex.close(J[a][b], fd, g[a] / dt / p, 1e-7, "jacobian-fd", "derivative of the microstress, " + w);
                                }
                            }
                      }
                    while (next(idx, std::vector<int>(ns, jx.size())));
                    ex.state(key);
                    ex.trace();
                    ex.sample(key);
                    ex.end();
                  }
    }
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  run<2>(ex);
  run<3>(ex);
  return ex.finish();
}
