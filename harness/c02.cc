// C02: elastic/plastic strain decomposition and resolved shear stress, against data rotated independently.
#include "gcp_util.h"
#include <gCP/constitutive_laws.h>
using namespace vp;

template <int dim>
void run(Explorer &ex)
{
  using namespace dealii;
  std::vector<Row> angles;
  if (dim == 2)
    for (double a : {0., 30., 45., -60., 137.5, 180., 270.}) angles.push_back({a});
  else
    for (double a : {0., 30., 90., 200.}) for (double b : {0., 54.7, -45., 180.}) for (double c : {0., 45., 123.}) angles.push_back({a, b, c});
  struct Sys { std::string name; std::vector<Row> d, n; };
  std::vector<Sys> systems;
  if (dim == 2)
    systems = {{"one", {{1, 0}}, {{0, 1}}},
               {"two", {{1, 1}, {-1, 1}}, {{-1, 1}, {1, 1}}},
               {"three", {{2, 0}, {0.5, 0.866}, {-1, 3}}, {{0, 3}, {-0.866, 0.5}, {3, 1}}}};
  else
    systems = {{"one", {{1, 0, 0}}, {{0, 0, 1}}},
               {"two", {{0, 1, -1}, {1, 0, 1}}, {{1, 1, 1}, {-1, 1, 1}}},
               {"three", {{-1, 1, 0}, {2, 0, 0}, {0, 1, 1}}, {{1, 1, 1}, {0, 3, 1}, {1, -1, 1}}}};
  for (auto &sy : systems)
    for (size_t a = 0; a < angles.size(); ++a)
      for (double kappa : {1.0, 0.25, 1e-3})
        {
          std::vector<Row> an = {angles[a], angles[(a * 5 + 2) % angles.size()]};
          const std::string key = "dim=" + std::to_string(dim) + ";systems=" + sy.name + ";angles=" + rowstr(an[0]) + "|" + rowstr(an[1]) + ";scale=" + shortnum(kappa);
          if (!ex.begin(key)) continue;
          auto cd = make_crystals<dim>(ex.workdir, an, sy.d, sy.n);
          const unsigned ns = sy.d.size();
          gCP::Kinematics::ElasticStrain<dim> kin(cd, kappa), kin1(cd);
          gCP::ConstitutiveLaws::ResolvedShearStressLaw<dim> rss(cd);
          for (unsigned c = 0; c < 2; ++c)
            {
              double R[3][3];
              rotation(an[c], R);
              std::vector<std::array<double, 3>> s(ns), m(ns);
              for (unsigned k = 0; k < ns; ++k)
                {
                  double l1 = 0, l2 = 0;
                  for (int i = 0; i < dim; ++i) { l1 += sy.d[k][i] * sy.d[k][i]; l2 += sy.n[k][i] * sy.n[k][i]; }
                  for (int i = 0; i < dim; ++i)
                    {
                      s[k][i] = m[k][i] = 0;
                      for (int j = 0; j < dim; ++j) { s[k][i] += R[i][j] * sy.d[k][j] / std::sqrt(l1); m[k][i] += R[i][j] * sy.n[k][j] / std::sqrt(l2); }
                    }
                }
              const int nc = SymmetricTensor<2, dim>::n_independent_components;
              std::vector<int> sizes(nc + ns, 3);
              if (dim == 3)
                for (int i = 0; i < nc; ++i) sizes[i] = ex.quick ? 2 : 3;
              std::vector<int> idx(nc + ns, 0);
              do
                {
                  SymmetricTensor<2, dim> e;
                  const double lv[3] = {0.0, 3e-3, -1.5}, ls[3] = {0.0, 0.02, -1.0};
                  for (int i = 0; i < nc; ++i) e.access_raw_entry(i) = lv[idx[i]] * (1 + 0.1 * i);
                  std::vector<std::vector<double>> slips(ns);
                  for (unsigned k = 0; k < ns; ++k) slips[k] = {9.0 - k, ls[idx[nc + k]] * (1 + 0.3 * k), -4.0};
                  SymmetricTensor<2, dim> ep;
                  for (unsigned k = 0; k < ns; ++k)
                    for (int i = 0; i < dim; ++i) for (int j = i; j < dim; ++j) ep[i][j] += slips[k][1] * 0.5 * (s[k][i] * m[k][j] + s[k][j] * m[k][i]);
                  const auto el = kin.get_elastic_strain_tensor(c, 1, e, slips);
                  const auto el1 = kin1.get_elastic_strain_tensor(c, 1, e, slips);
                  const auto pl = kin.get_plastic_strain_tensor(c, 1, slips);
                  ex.transition();
                  const double sc = e.norm() + ep.norm() + 1e-30;
                  ex.check((el - (e - kappa * ep)).norm() <= 1e-12 * sc, "elastic-strain", "crystal " + std::to_string(c) + ": elastic strain is not strain minus scaled plastic strain, off by " + num((el - (e - kappa * ep)).norm()));
                  ex.check((el1 - (e - ep)).norm() <= 1e-12 * sc, "elastic-strain", "crystal " + std::to_string(c) + ": (default scale) elastic strain is not strain minus plastic strain");
                  ex.check((pl - ep).norm() <= 1e-12 * sc, "plastic-strain", "crystal " + std::to_string(c) + ": plastic strain off by " + num((pl - ep).norm()));
                  ex.check(std::abs(trace(pl)) <= 1e-12 * sc, "trace", "plastic strain is not trace-free");
                  // the strain lattice doubles as a stress lattice
                  double power = 0;
                  for (unsigned k = 0; k < ns; ++k)
                    {
                      double tau = 0;
                      for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) tau += s[k][i] * e[i][j] * m[k][j];
                      const double t = rss.get_resolved_shear_stress(c, k, e);
                      ex.close(t, tau, e.norm() + 1e-30, 1e-12, "resolved-stress", "crystal " + std::to_string(c) + " system " + std::to_string(k));
                      power += t * slips[k][1];
                    }
                  ex.close(power, e * pl, e.norm() * 3 + 1e-30, 1e-12, "work-conjugacy", "sum of resolved stress times slip is not stress times plastic strain");
                }
              while (next(idx, sizes));
              ex.state(key + ";crystal=" + std::to_string(c));
            }
          ex.trace();
          ex.sample(key);
          ex.end();
        }
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  run<2>(ex);
  run<3>(ex);
  return ex.finish();
}
