// C05: grain-boundary microtractions as the gradient of one interface energy.
#include "gcp_util.h"
#include <gCP/constitutive_laws.h>
using namespace vp;
namespace RTP = gCP::RunTimeParameters;

template <int dim>
void run(Explorer &ex)
{
  using namespace dealii;
  std::vector<Row> angles;
  if (dim == 2)
    for (double a : {0., 30., 45., -60., 90., 137.5, 180.}) angles.push_back({a});
  else
    for (double a : {0., 30., 200.}) for (double b : {0., 54.7, 90.}) for (double c : {0., 45., 123.})
      if (!ex.quick || ((int)(a + b + c) % 4 != 1 && b != 90.) || a + c == 0) angles.push_back({a, b, c});
  struct Sys { std::string name; std::vector<Row> d, n; };
  std::vector<Sys> systems;
  if (dim == 2)
    systems = {{"one", {{1, 0}}, {{0, 1}}}, {"three", {{1, 1}, {0.5, 0.866}, {-1, 3}}, {{-1, 1}, {-0.866, 0.5}, {3, 1}}}};
  else
    systems = {{"one", {{1, 0, 0}}, {{0, 0, 1}}}, {"three", {{-1, 1, 0}, {1, 0, 0}, {0, 1, 1}}, {{1, 1, 1}, {0, 3, 1}, {1, -1, 1}}}};
  std::vector<Tensor<1, dim>> normals;
  {
    std::vector<int> idx(dim, 0);
    do
      {
        Tensor<1, dim> n;
        for (int i = 0; i < dim; ++i) n[i] = idx[i] - 1;
        if (n.norm() > 0) normals.push_back(n / n.norm());
      }
    while (next(idx, std::vector<int>(dim, 3)));
    Tensor<1, dim> n;
    for (int i = 0; i < dim; ++i) n[i] = 1.0 / (i + 2) * (i == 1 ? -1 : 1);
    normals.push_back(n / n.norm());
  }
  const unsigned nq = normals.size();
  for (auto &sy : systems)
    for (size_t a = 0; a < angles.size(); ++a)
      for (size_t b = 0; b < angles.size(); ++b)
        for (double lambda : {0.0, 3.5})
          for (double chr : {1.0, 4.0})
            {
              const std::string key = "dim=" + std::to_string(dim) + ";systems=" + sy.name + ";angles=" + rowstr(angles[a]) + "|" + rowstr(angles[b]) + ";modulus=" + shortnum(lambda) + ";char=" + shortnum(chr);
              if (!ex.begin(key)) continue;
              const std::vector<Row> an = {angles[b], angles[a], angles[a]};
              auto cd = make_crystals<dim>(ex.workdir, an, sy.d, sy.n);
              const unsigned ns = sy.d.size();
              RTP::MicrotractionLawParameters prm;
              prm.grain_boundary_modulus = lambda;
              gCP::ConstitutiveLaws::MicrotractionLaw<dim> law(cd, prm, chr), unit(cd, prm);
              // independent Burgers-tensor basis: b[c][k][q] = s (x) (m x n)
              std::vector<std::vector<std::vector<Tensor<2, 3>>>> B(3);
              for (unsigned c = 0; c < 3; ++c)
                {
                  double R[3][3];
                  rotation(an[c], R);
                  B[c].resize(ns);
                  for (unsigned k = 0; k < ns; ++k)
                    {
                      Tensor<1, 3> s, m;
                      double l1 = 0, l2 = 0;
                      for (int i = 0; i < dim; ++i) { l1 += sy.d[k][i] * sy.d[k][i]; l2 += sy.n[k][i] * sy.n[k][i]; }
                      for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) { s[i] += R[i][j] * sy.d[k][j] / std::sqrt(l1); m[i] += R[i][j] * sy.n[k][j] / std::sqrt(l2); }
                      for (unsigned q = 0; q < nq; ++q)
                        {
                          Tensor<1, 3> n;
                          for (int i = 0; i < dim; ++i) n[i] = normals[q][i];
                          B[c][k].push_back(outer_product(s, cross_product_3d(m, n)));
                        }
                    }
                }
              std::vector<Tensor<1, dim>> rev = normals;
              for (auto &n : rev) n *= -1;
              // current = crystal 1 (angles a), neighbour = crystal 0 (angles b)
              bool ok = true;
              std::string err;
              using M = typename gCP::ConstitutiveLaws::MicrotractionLaw<dim>::GrainInteractionModuli;
              M ab, ba, abr, same;
              try
                {
                  ab = law.get_grain_interaction_moduli(1, 0, normals);
                  ba = law.get_grain_interaction_moduli(0, 1, normals);
                  abr = law.get_grain_interaction_moduli(1, 0, rev);
                  same = law.get_grain_interaction_moduli(1, 2, normals);
                }
              catch (std::exception &e) { ok = false; err = e.what(); }
              if (!ex.check(ok, "rejected", "admissible orientations and normals are rejected: " + err.substr(0, 300))) continue;
              bool threw = false;
              try { law.get_grain_interaction_moduli(1, 1, normals); } catch (...) { threw = true; }
              ex.check(threw, "same-crystal", "a grain boundary of a crystal with itself is accepted");
              if (!ex.check(ab.first.size() == nq && ab.second.size() == nq, "size", "wrong number of integration points")) continue;
              const double sc = lambda / chr + 1e-30;
              for (unsigned q = 0; q < nq; ++q)
                {
                  auto Jaa = law.get_intra_gateaux_derivative(q, ab), Jab = law.get_inter_gateaux_derivative(q, ab);
                  auto Jbb = law.get_intra_gateaux_derivative(q, ba), Jba = law.get_inter_gateaux_derivative(q, ba);
                  auto Jr = law.get_intra_gateaux_derivative(q, abr), Jri = law.get_inter_gateaux_derivative(q, abr);
                  for (unsigned i = 0; i < ns; ++i)
                    for (unsigned j = 0; j < ns; ++j)
                      {
                        const std::string w = " entry " + std::to_string(i) + std::to_string(j) + " normal " + tstr(normals[q]);
                        ex.close(Jaa[i][j], -lambda / chr * scalar_product(B[1][i][q], B[1][j][q]), sc, 1e-12, "intra", "intra-grain derivative," + w);
                        ex.close(Jbb[i][j], -lambda / chr * scalar_product(B[0][i][q], B[0][j][q]), sc, 1e-12, "intra", "intra-grain derivative of the other side," + w);
                        ex.close(Jab[i][j], lambda / chr * scalar_product(B[1][i][q], B[0][j][q]), sc, 1e-12, "inter", "inter-grain derivative," + w);
                        ex.close(Jba[j][i], Jab[i][j], sc, 1e-12, "transposed", "inter-grain derivatives of the two sides are not transposed," + w);
                        ex.close(Jaa[j][i], Jaa[i][j], sc, 1e-12, "symmetric", "intra-grain derivative not symmetric," + w);
                        ex.close(Jr[i][j], Jaa[i][j], sc, 1e-12, "reversal", "depends on the sense of the normal," + w);
                        ex.close(Jri[i][j], Jab[i][j], sc, 1e-12, "reversal", "depends on the sense of the normal," + w);
                      }
                }
              // all slip combinations
              const double lv[3] = {0.0, 0.02, -1.5};
              std::vector<int> idx(2 * ns, 0);
              do
                {
                  std::vector<std::vector<double>> ga(ns), gb(ns);
                  for (unsigned k = 0; k < ns; ++k)
                    {
                      ga[k].assign(nq, 0);
                      gb[k].assign(nq, 0);
                      for (unsigned q = 0; q < nq; ++q)
                        { // different values at every point so that a wrong point shows
                          ga[k][q] = lv[idx[k]] * (1 + 0.05 * q);
                          gb[k][q] = lv[idx[ns + k]] * (1 - 0.03 * q);
                        }
                    }
                  for (unsigned q = 0; q < nq; ++q)
                    {
                      Tensor<2, 3> G;
                      for (unsigned k = 0; k < ns; ++k) G += gb[k][q] * B[0][k][q] - ga[k][q] * B[1][k][q];
                      const double psi = 0.5 * lambda * scalar_product(G, G);
                      double s2 = 1e-30;
                      for (unsigned k = 0; k < ns; ++k) s2 += lambda * (ga[k][q] * ga[k][q] + gb[k][q] * gb[k][q]);
                      const std::string w = "normal " + tstr(normals[q]);
                      const double p1 = law.get_free_energy_density(0, 1, q, normals, gb, ga);
                      ex.transition();
                      ex.close(p1, psi, s2, 1e-11, "energy", "interface energy, " + w);
                      ex.check(p1 >= 0, "energy-sign", "negative interface energy, " + w);
                      ex.close(law.get_free_energy_density(1, 0, q, normals, ga, gb), p1, s2, 1e-11, "energy-swap", "swapping the sides changes the energy, " + w);
                      ex.close(law.get_free_energy_density(0, 1, q, rev, gb, ga), p1, s2, 1e-11, "energy-reversal", "reversing the normal changes the energy, " + w);
                      for (unsigned k = 0; k < ns; ++k)
                        {
                          const double ta = law.get_microtraction(q, k, ab, ga, gb), tb = law.get_microtraction(q, k, ba, gb, ga);
                          const double ra = lambda / chr * scalar_product(G, B[1][k][q]), rb = -lambda / chr * scalar_product(G, B[0][k][q]);
                          const double ts = std::sqrt(s2 * lambda) / chr + 1e-30;
                          ex.close(ta, ra, ts, 1e-11, "microtraction", "microtraction of the current side, system " + std::to_string(k) + ", " + w);
                          ex.close(tb, rb, ts, 1e-11, "microtraction", "microtraction of the neighbour side, system " + std::to_string(k) + ", " + w);
                          ex.close(law.get_microtraction(q, k, same, ga, ga), 0.0, ts, 1e-11, "equal-grains", "equal grains with equal slips give a microtraction, " + w);
                        }
                    }
                }
              while (next(idx, std::vector<int>(2 * ns, ns == 1 ? 3 : (ex.quick ? 2 : 3))));
              ex.state(key);
              ex.trace();
              ex.sample(key);
              ex.end();
            }
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  run<2>(ex);
  run<3>(ex);
  return ex.finish();
}
