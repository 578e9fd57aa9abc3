// C06: cohesive law over all opening histories of a lattice.
#include "gcp_util.h"
#include <gCP/constitutive_laws.h>
using namespace vp;
namespace RTP = gCP::RunTimeParameters;

template <int dim>
void run(Explorer &ex)
{
  using namespace dealii;
  std::vector<Tensor<1, dim>> normals;
  {
    Tensor<1, dim> n;
    n[0] = 1; normals.push_back(n);
    n = 0; n[dim - 1] = -1; normals.push_back(n);
    n = 0; for (int i = 0; i < dim; ++i) n[i] = 0.6 - 0.5 * i; n /= n.norm(); normals.push_back(n);
  }
  const int depth = ex.quick ? 3 : 4;
  for (unsigned in = 0; in < normals.size(); ++in)
    for (double sc : {1.0, 40.0})
      for (double dc : {1.0, 0.05})
        for (double beta : {0.0, 0.7, 1.0, 2.0})
          for (double cs : {1.0, 8.0})
            for (double cu : {1.0, 0.5, 3.0})
              for (int first = 0; first < 8; ++first)
                {
                  const std::string key = "dim=" + std::to_string(dim) + ";normal=" + std::to_string(in) + ";sc=" + shortnum(sc) + ";dc=" + shortnum(dc) + ";beta=" + shortnum(beta) +
                                          ";cs=" + shortnum(cs) + ";cu=" + shortnum(cu) + ";first=" + std::to_string(first);
                  if (!ex.begin(key)) continue;
                  RTP::CohesiveLawParameters prm;
                  prm.critical_cohesive_traction = sc;
                  prm.critical_opening_displacement = dc;
                  prm.tangential_to_normal_stiffness_ratio = beta;
                  gCP::ConstitutiveLaws::CohesiveLaw<dim> law(prm, cs, cu);
                  const Tensor<1, dim> n = normals[in];
                  // openings: lattice in (normal, tangential) x direction of the tangent
                  struct Op { Tensor<1, dim> u; double dn; Tensor<1, dim> t; std::string name; };
                  std::vector<Op> ops;
                  Tensor<1, dim> t1, t2;
                  t1[(n[0] * n[0] > 0.9) ? 1 : 0] = 1;
                  t1 -= (t1 * n) * n;
                  t1 /= t1.norm();
                  if constexpr (dim == 3) t2 = cross_product_3d(n, t1);
                  else t2 = -t1;
                  const double unit = dc / cu;
                  const double lat[8][3] = {{0, 0, 0}, {0.5, 0, 0}, {1.0, 0.7, 0}, {2.5, 0, -0.4}, {0, 1.0, 0}, {-0.6, 0, 0}, {-0.6, 1.5, 0.2}, {6.0, -2.0, 1.0}};
                  for (auto &l : lat)
                    {
                      Op o;
                      o.dn = l[0] * unit;
                      o.t = (l[1] * t1 + l[2] * t2) * unit;
                      o.u = o.dn * n + o.t;
                      o.name = "(" + shortnum(l[0]) + "," + shortnum(l[1]) + "," + shortnum(l[2]) + ")";
                      ops.push_back(o);
                    }
                  auto eff = [&](const Op &o) { const double p = std::max(o.dn, 0.0); return std::sqrt(p * p + beta * beta * o.t.norm_square()); };
                  auto env = [&](double d) { return sc * (d * cu / dc) * std::exp(1.0 - d * cu / dc); }; // physical traction at a scaled opening
                  std::string path;
                  std::function<void(double, double, int)> rec = [&](double mx, double old, int d) {
                    for (int o = d ? 0 : first; o < (d ? 8 : first + 1); ++o)
                      {
                        const Op &op = ops[o];
                        const double e = eff(op);
                        // the law reports the effective opening; the history keeps its maximum
                        const double le = law.get_effective_opening_displacement(op.u, n);
                        ex.close(le, e, e + 1e-3 * unit, 1e-12, "effective", "effective opening at " + op.name);
                        const auto eq = law.get_effective_quantities(op.u, n);
                        ex.check(std::abs(eq.opening_displacement - le) <= 1e-14 * (le + unit), "effective", "the two effective openings differ at " + op.name);
                        const double nmx = std::max(mx, eq.opening_displacement);
                        const size_t len = path.size();
                        path += op.name;
                        const std::string w = "after " + path + ", maximum " + num(nmx);
                        for (double dt : {1.0, 0.01})
                          {
                            const auto T = law.get_cohesive_traction(op.u, n, nmx, old, dt);
                            ex.transition();
                            Tensor<1, dim> ref;
                            if (e > 0 && nmx > 0)
                              ref = (std::max(op.dn, 0.0) * n + beta * beta * op.t) * (env(nmx) / nmx / cs);
                            bool fin = true;
                            for (int i = 0; i < dim; ++i) fin = fin && std::isfinite(T[i]);
                            if (!ex.check(fin, "not-finite", "traction not finite " + w)) continue;
                            ex.check((T - ref).norm() <= 1e-11 * sc / cs * (1 + beta), "traction", "traction " + tstr(T) + ", expected " + tstr(ref) + " " + w);
                            if (e <= 1e-14 * unit) ex.check(T.norm() <= 1e-13 * sc / cs, "zero-opening", "traction at zero effective opening " + w);
                            // power of the traction against the effective opening is not negative, below the envelope
                            ex.check(T * op.u >= -1e-13 * sc * unit / cs, "sign", "traction closes against the opening " + w);
                            // Jacobian on the current branch, per unit of physical opening
                            const auto J = law.get_jacobian(op.u, n, nmx, old, dt);
                            bool jf = true;
                            for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) jf = jf && std::isfinite(J[i][j]);
                            if (!ex.check(jf, "jacobian-not-finite", "jacobian not finite " + w)) continue;
                            const double ee = eq.opening_displacement;
                            // at the maximum with a (nearly) vanishing rate both branches are one-sided limits
                            const bool amb = std::abs(ee - nmx) <= 1e-12 * nmx && std::abs(ee - old) <= 1e-12 * nmx;
                            const bool loading = ee == nmx && ee >= old;
                            SymmetricTensor<2, dim> P;
                            for (int i = 0; i < dim; ++i) for (int j = i; j < dim; ++j) P[i][j] = n[i] * n[j];
                            auto Id = [&](bool normal) { return (normal ? 1.0 : 0.0) * P + beta * beta * (unit_symmetric_tensor<dim>() - P); };
                            auto refJ = [&](bool normal, bool loading) {
                              const double x = nmx * cu / dc;
                              SymmetricTensor<2, dim> r = sc / dc * std::exp(1 - x) * Id(normal);
                              if (loading && e > 1e-14 * unit)
                                {
                                  const Tensor<1, dim> dir = (std::max(op.dn, 0.0) * n + beta * beta * op.t) / e;
                                  r -= sc / dc * std::exp(1 - x) * x * symmetrize(outer_product(dir, dir));
                                }
                              return SymmetricTensor<2, dim>(r / cs);
                            };
                            const double js = sc / dc / cs * (1 + beta * beta);
                            // at zero normal opening the bracket has a kink: either one-sided value is a derivative
                            bool m = false;
                            for (bool nn : {false, true}) for (bool ll : {false, true})
                              if ((std::abs(op.dn) <= 1e-9 * unit || nn == (op.dn > 0)) && (amb || ll == loading))
                                m = m || (J - refJ(nn, ll)).norm() <= 1e-10 * js;
                            ex.check(m, "jacobian", std::string("jacobian is not the derivative on the ") + (loading ? "loading" : "unloading") + " branch " + w);
                            // cross-check against differences of the law itself, away from kinks
                            if (!amb && std::abs(op.dn) > 1e-9 * unit && e > 1e-9 * unit)
                              for (int j = 0; j < dim; ++j)
                                {
                                  const double h = 1e-5 * unit;
                                  Tensor<1, dim> fd;
                                  for (int s : {-1, 1})
                                    {
                                      Tensor<1, dim> u = op.u;
                                      u[j] += s * h;
                                      const double ue = law.get_effective_opening_displacement(u, n);
                                      fd += s * law.get_cohesive_traction(u, n, loading ? ue : std::max(nmx, ue), loading ? ue : nmx, 1.0) / (2 * h);
                                    }
                                  // per unit scaled opening the derivative carries the characteristic displacement
                                  if (loading || e < nmx * (1 - 1e-4))
                                    for (int i = 0; i < dim; ++i)
                                      ex.close(J[i][j] * cu, fd[i], js * cu, 1e-6, "jacobian-fd", "entry " + std::to_string(i) + std::to_string(j) + " " + w);
                                }
                            // continuity: the branch limits meet at the historical maximum
                            if (e > 1e-9 * unit)
                              {
                                const auto Tl = law.get_cohesive_traction(op.u, n, eq.opening_displacement, 0.0, dt);
                                const auto Tu = law.get_cohesive_traction(op.u, n, eq.opening_displacement, 2 * eq.opening_displacement, dt);
                                const auto Tm = law.get_cohesive_traction(op.u, n, eq.opening_displacement * (1 + 1e-9), 0.0, dt);
                                ex.check((Tl - Tu).norm() <= 1e-12 * sc / cs && (Tl - Tm).norm() <= 1e-7 * sc / cs * (1 + beta), "continuity", "traction jumps at the historical maximum " + w);
                                // dissipation: the secant stiffness never grows with the maximum
                                ex.check(Tm.norm() <= Tl.norm() * (1 + 1e-12), "dissipation", "a larger historical maximum increases the traction " + w);
                              }
                          }
                        ex.state(num(nmx) + "/" + num(e));
                        if (d + 1 < depth) rec(nmx, eq.opening_displacement, d + 1);
                        else ex.trace();
                        path.resize(len);
                      }
                  };
                  rec(0.0, 0.0, 0);
                  // free energy of the envelope
                  for (double x : {0.0, 1e-4, 0.1, 0.5, 1.0, 2.0, 7.0})
                    {
                      const double d = x * dc, h = 1e-4 * dc;
                      const double psi = law.get_free_energy_density(d);
                      const long double r = (long double)sc * dc * expl(1.0L) * (1.0L - (1.0L + x) * expl(-(long double)x));
                      ex.close(psi, r, sc * dc, 1e-13, "free-energy", "free energy at " + shortnum(x));
                      const double fd = (law.get_free_energy_density(d + h) - law.get_free_energy_density(d - h)) / (2 * h);
                      ex.close(fd, sc * x * std::exp(1 - x), sc, 1e-6, "free-energy", "derivative of the free energy at " + shortnum(x));
                    }
                  ex.sample(key);
                  ex.end();
                }
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  run<2>(ex);
  run<3>(ex);
  return ex.finish();
}
