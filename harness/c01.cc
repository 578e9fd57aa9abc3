// C01: cubic elasticity, rotated per crystal; every entry against the closed form.
#include "gcp_util.h"
#include <gCP/constitutive_laws.h>
using namespace vp;

// Closed-form cubic tensor in laboratory axes (R: crystal -> laboratory), unscaled.
static long double cubic(const double R[3][3], double c11, double c12, double c44, int i, int j, int k, int l)
{
  long double a = 0;
  for (int m = 0; m < 3; ++m) a += (long double)R[i][m] * R[j][m] * R[k][m] * R[l][m];
  return c12 * (i == j) * (k == l) + c44 * ((i == k) * (j == l) + (i == l) * (j == k)) + ((long double)c11 - c12 - 2.0L * c44) * a;
}

template <int dim>
void run(Explorer &ex)
{
  using namespace dealii;
  std::vector<Row> angles;
  if (dim == 2)
    for (double a : {0., 30., 45., 90., -60., 137.5, 180., 270., 359., 15.}) angles.push_back({a});
  else
    {
      const std::vector<double> v = ex.quick ? std::vector<double>{0., 30., 90., -45., 200.} : std::vector<double>{0., 15., 30., 90., -45., 135., 200., 359.};
      for (double a : v) for (double b : v) for (double c : v) angles.push_back({a, b, c});
    }
  std::vector<Row> dirs, norms;
  if (dim == 2) { dirs = {{1, 0}}; norms = {{0, 1}}; }
  else { dirs = {{1, 0, 0}}; norms = {{0, 1, 0}}; }
  const std::vector<std::array<double, 3>> cs = {{{168.4, 121.4, 75.4}}, {{10., 4., 3.}}, {{107300., 60900., 28300.}}, {{3., 1., 7.}}};
  for (size_t a = 0; a < angles.size(); ++a)
    for (auto &c : cs)
      for (double chr : {1.0, 2.5, 1e5})
        {
          // crystal 0: this orientation; 1: the next one; 2: lattice-equivalent of crystal 0; 3: unrotated
          std::vector<Row> an = {angles[a], angles[(a * 7 + 3) % angles.size()], angles[a], Row(angles[a].size(), 0.0)};
          an[2].back() += 90.0;
          const std::string key = "dim=" + std::to_string(dim) + ";angles=" + rowstr(an[0]) + "|" + rowstr(an[1]) + ";C=" + shortnum(c[0]) + "," + shortnum(c[1]) + "," + shortnum(c[2]) + ";char=" + shortnum(chr);
          if (!ex.begin(key)) continue;
          ex.state(key);
          auto cd = make_crystals<dim>(ex.workdir, an, dirs, norms);
          gCP::RunTimeParameters::HookeLawParameters prm;
          prm.C1111 = c[0]; prm.C1122 = c[1]; prm.C1212 = c[2];
          gCP::ConstitutiveLaws::HookeLaw<dim> law(cd, prm, chr), mono(prm, chr);
          bool threw = false;
          try { law.get_stress_tensor(0u, SymmetricTensor<2, dim>()); } catch (...) { threw = true; }
          ex.check(threw, "uninitialised", "a law that was not initialised returns a stress");
          law.init();
          mono.init();
          const double sc = (c[0] + c[1] + 2 * c[2]) / chr;
          double R[4][3][3], I[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
          for (int k = 0; k < 4; ++k) rotation(an[k], R[k]);
          // strains: unit strains and full combinations over a lattice
          std::vector<SymmetricTensor<2, dim>> strains;
          const int nc = SymmetricTensor<2, dim>::n_independent_components;
          std::vector<int> idx(nc, 0);
          do
            {
              SymmetricTensor<2, dim> e;
              const double lv[3] = {0.0, 1e-3, -2e-2};
              for (int m = 0; m < nc; ++m) e.access_raw_entry(m) = lv[idx[m]];
              strains.push_back(e);
            }
          while (next(idx, std::vector<int>(nc, ex.quick && dim == 3 ? 2 : 3)));
          for (int k = -1; k < 4; ++k)
            {
              const auto &Rk = k < 0 ? I : R[k];
              const auto &C = k < 0 ? mono.get_stiffness_tetrad() : law.get_stiffness_tetrad(k);
              const auto &C3 = k < 0 ? mono.get_stiffness_tetrad_3d() : law.get_stiffness_tetrad_3d(k);
              const std::string who = k < 0 ? "single crystal law: " : "crystal " + std::to_string(k) + ": ";
              for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q)
                {
                  const double ref = cubic(Rk, c[0], c[1], c[2], i, j, p, q) / chr;
                  const std::string ijkl = std::to_string(i) + std::to_string(j) + std::to_string(p) + std::to_string(q);
                  if (i < dim && j < dim && p < dim && q < dim)
                    ex.close(C[i][j][p][q], ref, sc, 1e-12, "stiffness", who + "C" + ijkl);
                  ex.close(C3[i][j][p][q], ref, sc, 1e-12, "stiffness3d", who + "3-D C" + ijkl);
                }
              for (auto &e : strains)
                {
                  const auto s = k < 0 ? mono.get_stress_tensor(e) : law.get_stress_tensor((unsigned)k, e);
                  ex.transition();
                  const double es = sc * (e.norm() + 1e-30);
                  for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j)
                    {
                      long double r = 0;
                      for (int p = 0; p < dim; ++p) for (int q = 0; q < dim; ++q) r += cubic(Rk, c[0], c[1], c[2], i, j, p, q) / chr * e[p][q];
                      ex.close(s[i][j], r, es, 1e-12, "stress", who + "stress " + std::to_string(i) + std::to_string(j));
                    }
                  if (c[0] > c[1] && e.norm() > 0)
                    ex.check(s * e > 0, "energy", who + "non-positive strain energy for a stable crystal");
                  if (k == 0 && e.norm() > 0)
                    {
                      const auto s2 = law.get_stress_tensor(2u, e);
                      ex.check((s2 - s).norm() <= 1e-11 * es, "lattice-symmetry", "a 90 degree lattice rotation changes the stress by " + num((s2 - s).norm()));
                      const auto s3 = law.get_stress_tensor(0u, -3.0 * e);
                      ex.check((s3 + 3.0 * s).norm() <= 1e-11 * es, "linearity", "the stress is not linear in the strain");
                      // objectivity: strain of crystal 3 (unrotated) rotated with the crystal
                      Tensor<2, dim> Q;
                      for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) Q[i][j] = R[0][i][j];
                      const Tensor<2, dim> e0 = e;
                      const auto er = symmetrize(Q * e0 * transpose(Q));
                      const Tensor<2, dim> s0 = law.get_stress_tensor(3u, e);
                      const auto sr = symmetrize(Q * s0 * transpose(Q));
                      ex.check((law.get_stress_tensor(0u, er) - sr).norm() <= 1e-11 * es, "objectivity", "rotating crystal and strain together does not rotate the stress");
                    }
                }
            }
          ex.trace();
          ex.sample(key);
          ex.end();
        }
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  run<2>(ex);
  run<3>(ex);
  return ex.finish();
}
