// O02: homogenised and boundary averages over affine fields against exact integrals.
#include "field_util.h"
#include <gCP/postprocessing.h>
using namespace vp;
using namespace dealii;
using gCP::RunTimeParameters::LoadingType;

static M3 mean_elastic(int dim, const Affine &f, const std::vector<Slip> &sys, double kappa, const double *x, M3 *strain = nullptr)
{
  M3 e;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
      e[i][j] = 0.5 * (f.G[i][j] + f.G[j][i]);
      if (strain) (*strain)[i][j] = e[i][j];
      for (size_t k = 0; k < sys.size(); ++k) e[i][j] -= kappa * f.slip(k, x) * 0.5 * (sys[k].s[i] * sys[k].m[j] + sys[k].s[j] * sys[k].m[i]);
    }
  (void)dim;
  return e;
}

// rows of an org-mode table as column -> value text
static std::vector<std::map<std::string, std::string>> read_table(std::istream &in, std::vector<std::string> &header)
{
  std::vector<std::map<std::string, std::string>> rows;
  std::string line;
  while (std::getline(in, line))
    {
      std::vector<std::string> cells;
      std::string cur;
      std::istringstream ss(line);
      std::getline(ss, cur, '|');
      while (std::getline(ss, cur, '|'))
        {
          const size_t a = cur.find_first_not_of(" \t"), b = cur.find_last_not_of(" \t\r");
          cells.push_back(a == std::string::npos ? "" : cur.substr(a, b - a + 1));
        }
      while (!cells.empty() && cells.back().empty() && cells.size() > header.size() && !header.empty()) cells.pop_back();
      if (header.empty()) { while (!cells.empty() && cells.back().empty()) cells.pop_back(); header = cells; continue; }
      std::map<std::string, std::string> r;
      for (size_t i = 0; i < cells.size() && i < header.size(); ++i) r[header[i]] = cells[i];
      if (cells.size() != header.size()) r["#columns"] = std::to_string(cells.size());
      rows.push_back(r);
    }
  return rows;
}

static double programme(bool cyclic, double t, double mx, double mn, double D, double P, double unload)
{
  if (!cyclic) return t * mx;
  const double amp = (mx - mn) / 2, mean = (mx + mn) / 2;
  if (t < D) return mean * t / D;
  if (t < unload) return mean + amp * std::sin(2 * M_PI * (t - D) / P);
  return mean * (1 - (t - unload) / D);
}

template <int dim>
void run(Explorer &ex)
{
  const std::array<double, 3> C{{168.4, 121.4, 75.4}};
  std::vector<Row> angs, dirs, norms;
  if (dim == 2) { angs = {{20.}, {-55.}, {100.}}; dirs = {{1, 0}, {1, 1}}; norms = {{0, 1}, {-1, 1}}; }
  else { angs = {{20., 40., 70.}, {0., 55., -30.}, {100., 10., 200.}}; dirs = {{0, 1, -1}, {1, 0, 1}}; norms = {{1, 1, 1}, {-1, 1, 1}}; }
  const int dir = 1; // crystals are stacked along y, as in the application
  for (std::vector<unsigned> mat : {std::vector<unsigned>{0}, {0, 0, 0}, {0, 1}, {0, 0, 1}, {1, 0}, {2, 0, 1}})
    for (std::array<double, 3> h : {std::array<double, 3>{{1, 1, 1}}, {{0.25, 0.5, 2.}}, {{3., 0.1, 0.2}}})
      for (unsigned ns : {1u, 2u})
        for (int dec = 0; dec < 2; ++dec)
          for (int refine = 0; refine < 2; ++refine)
            for (double kappa : {1., 20.})
              for (int pat = 0; pat < (ex.quick ? 4 : 10); ++pat)
                {
                  if (refine && dim == 3 && ex.quick && pat > 1) continue;
                  std::string ms;
                  for (auto m : mat) ms += std::to_string(m);
                  const std::string key = "averages;dim=" + std::to_string(dim) + ";cells=" + ms + ";h=" + shortnum(h[0]) + "," + shortnum(h[1]) + "," + shortnum(h[2]) + ";slips=" + std::to_string(ns) + ";decohesion=" + std::to_string(dec) + ";refine=" + std::to_string(refine) + ";kappa=" + shortnum(kappa) + ";pattern=" + std::to_string(pat);
                  if (!ex.begin(key)) continue;
                  try
                    {
                      unsigned nc = 0;
                      for (auto m : mat) nc = std::max(nc, m + 1);
                      Triangulation<dim> tria;
                      std::vector<unsigned> rep(dim, 1);
                      rep[dir] = mat.size();
                      Point<dim> p1, p2;
                      for (int i = 0; i < dim; ++i) p2[i] = h[i] * (i == dir ? mat.size() : 1);
                      GridGenerator::subdivided_hyper_rectangle(tria, rep, p1, p2, true);
                      for (auto &c : tria.active_cell_iterators()) c->set_material_id(mat[std::min<unsigned>(mat.size() - 1, c->center()[dir] / h[dir])]);
                      if (refine) tria.refine_global(1);
                      std::vector<Row> an(angs.begin(), angs.begin() + nc), d(dirs.begin(), dirs.begin() + ns), n(norms.begin(), norms.begin() + ns);
                      auto cd = make_crystals<dim>(ex.workdir, an, d, n, &tria);
                      std::shared_ptr<gCP::FEField<dim>> field = make_field<dim>(tria, nc, ns, dec);
                      std::shared_ptr<Mapping<dim>> mapping = std::make_shared<MappingQ<dim>>(1);
                      std::vector<Affine> f(nc);
                      unsigned r = 29 * pat + 11;
                      auto val = [&](double s) { r = (r * 1103515245u + 12345u) & 0x7fffffff; return s * (int(r >> 8) % 17 - 8) / 8.; };
                      for (unsigned c = 0; c < nc; ++c)
                        {
                          f[c].g0.resize(ns);
                          f[c].g.resize(ns);
                          for (int i = 0; i < dim; ++i)
                            {
                              f[c].a[i] = val(0.3);
                              for (int j = 0; j < dim; ++j) f[c].G[i][j] = pat == 0 ? 0. : val(0.02);
                            }
                          if (!dec && c) { memcpy(f[c].a, f[0].a, sizeof(f[0].a)); f[c].G = f[0].G; }
                          for (unsigned k = 0; k < ns; ++k)
                            {
                              f[c].g0[k] = pat == 1 ? 0. : val(0.1);
                              for (int j = 0; j < 3; ++j) f[c].g[k][j] = pat == 1 || j >= dim ? 0. : val(0.05);
                            }
                        }
                      set_field<dim>(*field, f, *mapping);
                      gCP::RunTimeParameters::HookeLawParameters hp;
                      hp.C1111 = C[0]; hp.C1122 = C[1]; hp.C1212 = C[2];
                      auto hooke = std::make_shared<gCP::ConstitutiveLaws::HookeLaw<dim>>(cd, hp, 1.);
                      hooke->init();
                      auto kin = std::make_shared<gCP::Kinematics::ElasticStrain<dim>>(cd, kappa);
                      SymmetricTensor<2, dim> macro;
                      M3 mac;
                      if (pat == 3)
                        for (int i = 0; i < dim; ++i) for (int j = i; j < dim; ++j) { macro[i][j] = 0.01 * (i + 1) - 0.02 * j; mac[i][j] = mac[j][i] = macro[i][j]; }
                      const auto sys = rotated_systems(dim, an, d, n);
                      // exact averages: affine integrands, evaluated at the layers' centres
                      M3 sa, sf, ea;
                      for (size_t l = 0; l < mat.size(); ++l)
                        {
                          double x[3] = {0, 0, 0};
                          for (int i = 0; i < dim; ++i) x[i] = h[i] * (i == dir ? l + 0.5 : 0.5);
                          M3 st, el = mean_elastic(dim, f[mat[l]], sys[mat[l]], kappa, x, &st);
                          M3 S = stress_of(el, an[mat[l]], C), T = stress_of(mac, an[mat[l]], C);
                          for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
                            {
                              sf[i][j] += S[i][j] / mat.size();
                              sa[i][j] += (S[i][j] + T[i][j]) / mat.size();
                              ea[i][j] += st[i][j] / mat.size();
                            }
                        }
                      M3 et = ea;
                      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) et[i][j] += mac[i][j];
                      gCP::Postprocessing::Homogenization<dim> hom(field, mapping);
                      bool threw = false;
                      try { hom.compute_macroscopic_quantities(0.); } catch (...) { threw = true; }
                      ex.check(threw, "uninitialised", "homogenisation without laws");
                      const std::string file = ex.workdir + "/homogenization.txt";
                      {
                        std::ofstream o(file);
                        hom.init(kin, hooke, o);
                        hom.set_macroscopic_strain(macro);
                        hom.compute_macroscopic_quantities(0.5);
                        hom.compute_macroscopic_quantities(1.25);
                        hom.output_macroscopic_quantities_to_file();
                        hom.path_to_output_file.flush();
                      }
                      ex.transition();
                      const double ss = C[0] * 0.05 * (1 + kappa), se = 0.05;
                      const auto S = hom.get_macroscopic_stress();
                      for (int i = 0; i < dim; ++i) for (int j = i; j < dim; ++j)
                        ex.close(S[i][j], sa[i][j], ss, 1e-11, "macroscopic-stress", "component " + std::to_string(i + 1) + std::to_string(j + 1));
                      std::ifstream in(file);
                      std::vector<std::string> header;
                      auto rows = read_table(in, header);
                      std::vector<std::string> want = {"Time", "VonMisesStress", "VonMisesStressFluctuations", "VonMisesStrain", "VonMisesStrainFluctuations"};
                      const char *VN[6] = {"11", "22", "33", "23", "13", "12"};
                      const int V[6][2] = {{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}};
                      for (auto p : {"Stress_", "Strain_", "StressFluctuations_", "StrainFluctuations_"})
                        for (auto v : VN) want.push_back(std::string(p) + v);
                      ex.check(header == want, "columns", "header of the homogenisation table");
                      if (ex.check(rows.size() == 2, "rows", std::to_string(rows.size()) + " rows for two evaluations"))
                        for (int rr = 0; rr < 2; ++rr)
                          {
                            auto &row = rows[rr];
                            if (row.count("#columns")) ex.fail("misaligned", "a row has " + row["#columns"] + " cells");
                            auto num_of = [&](const std::string &c) { try { return std::stod(row[c]); } catch (...) { return std::numeric_limits<double>::quiet_NaN(); } };
                            ex.close(num_of("Time"), rr ? 1.25 : 0.5, 1., 1e-6, "time", "");
                            for (int v = 0; v < 6; ++v)
                              {
                                const int a = V[v][0], b = V[v][1];
                                const bool out_of_plane = dim == 2 && b == 2; // reported by the three-dimensional table only
                                if (out_of_plane) continue;
                                ex.close(num_of(std::string("Stress_") + VN[v]), sa[a][b], ss, 1e-11, "Stress", VN[v]);
                                ex.close(num_of(std::string("Strain_") + VN[v]), et[a][b], se, 1e-11, "Strain", VN[v]);
                                ex.close(num_of(std::string("StressFluctuations_") + VN[v]), sf[a][b], ss, 1e-11, "StressFluctuations", VN[v]);
                                ex.close(num_of(std::string("StrainFluctuations_") + VN[v]), ea[a][b], se, 1e-11, "StrainFluctuations", VN[v]);
                              }
                            ex.close(num_of("VonMisesStrain"), von_mises(et, 2. / 3.), se, 1e-11, dim == 2 ? "von-mises-2d" : "VonMises", "strain");
                            ex.close(num_of("VonMisesStrainFluctuations"), von_mises(ea, 2. / 3.), se, 1e-11, dim == 2 ? "von-mises-2d" : "VonMises", "strain fluctuations");
                            ex.close(num_of("VonMisesStress"), von_mises(sa, 1.5), ss, 1e-11, dim == 2 ? "von-mises-2d" : "VonMises", "stress");
                            ex.close(num_of("VonMisesStressFluctuations"), von_mises(sf, 1.5), ss, 1e-11, dim == 2 ? "von-mises-2d" : "VonMises", "stress fluctuations");
                          }
                      ex.state(shortnum(sa[0][1]) + shortnum(et[0][0]));
                      // boundary average on the upper face
                      {
                        gCP::Postprocessing::SimpleShear<dim> shear(field, mapping, 0.1, -0.05, 1., 1., LoadingType::Monotonic, 3, h[0]);
                        bool t2 = false;
                        try { shear.compute_data(0.); } catch (...) { t2 = true; }
                        ex.check(t2, "uninitialised", "boundary average without laws");
                        shear.init(kin, hooke);
                        double x[3] = {h[0] / 2, h[1] * mat.size(), dim == 3 ? h[2] / 2 : 0.};
                        const unsigned c = mat.back();
                        const M3 T = stress_of(mean_elastic(dim, f[c], sys[c], kappa, x), an[c], C);
                        shear.compute_data(0.25);
                        ex.close(shear.average_stress_12, T[0][1], ss, 1e-11, "boundary-stress", "average shear stress on the upper boundary");
                        std::ostringstream o;
                        shear.output_data_to_file(o);
                        std::istringstream i2(o.str());
                        std::vector<std::string> hd;
                        auto rw = read_table(i2, hd);
                        if (ex.check(rw.size() == 1 && hd.size() == 2, "shear-table", o.str()))
                          {
                            ex.close(std::stod(rw[0]["shear_at_upper_boundary"]), 0.025, 0.025, 2e-6, "shear", "");
                            ex.close(std::stod(rw[0]["stress_12_at_upper_boundary"]), T[0][1], ss, 2e-6, "boundary-stress", "table");
                          }
                      }
                    }
                  catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 700)); }
                  ex.trace();
                  ex.sample(key);
                  ex.end();
                }
  // reported shear of the loading programmes
  for (int cyclic = 0; cyclic < 2; ++cyclic)
    for (double D : {1., 0.25, 4.})
      for (double P : {1., 0.5})
        for (int cycles : {1, 3})
          for (auto mm : {std::array<double, 2>{{0.1, -0.05}}, {{0.02, 0.}}, {{1., -1.}}})
            {
              const std::string key = "shear;dim=" + std::to_string(dim) + ";cyclic=" + std::to_string(cyclic) + ";duration=" + shortnum(D) + ";period=" + shortnum(P) + ";cycles=" + std::to_string(cycles) + ";max=" + shortnum(mm[0]) + ";min=" + shortnum(mm[1]);
              if (!ex.begin(key)) continue;
              try
                {
                  Triangulation<dim> tria;
                  row_mesh<dim>(tria, {0});
                  std::vector<Row> an(angs.begin(), angs.begin() + 1), d(dirs.begin(), dirs.begin() + 1), n(norms.begin(), norms.begin() + 1);
                  auto cd = make_crystals<dim>(ex.workdir, an, d, n, &tria);
                  std::shared_ptr<gCP::FEField<dim>> field = make_field<dim>(tria, 1, 1, false);
                  std::shared_ptr<Mapping<dim>> mapping = std::make_shared<MappingQ<dim>>(1);
                  gCP::RunTimeParameters::HookeLawParameters hp;
                  auto hooke = std::make_shared<gCP::ConstitutiveLaws::HookeLaw<dim>>(cd, hp, 1.);
                  hooke->init();
                  auto kin = std::make_shared<gCP::Kinematics::ElasticStrain<dim>>(cd, 1.);
                  const double unload = D + P * cycles;
                  gCP::Postprocessing::SimpleShear<dim> shear(field, mapping, mm[0], mm[1], P, D, cyclic ? LoadingType::Cyclic : LoadingType::Monotonic, 3, 1., cyclic ? unload : 1e30);
                  shear.init(kin, hooke);
                  std::vector<double> ts;
                  for (int i = 0; i <= 40; ++i) ts.push_back((unload + D) * i / 40);
                  for (int i = 0; i <= 4 * cycles; ++i) ts.push_back(D + P * i / 4);
                  for (double t : ts) shear.compute_data(t);
                  std::ostringstream o;
                  shear.output_data_to_file(o);
                  std::istringstream in(o.str());
                  std::vector<std::string> hd;
                  auto rows = read_table(in, hd);
                  ex.check(rows.size() == ts.size(), "shear-rows", std::to_string(rows.size()));
                  for (size_t i = 0; i < rows.size() && i < ts.size(); ++i)
                    {
                      ex.close(std::stod(rows[i]["shear_at_upper_boundary"]), programme(cyclic, ts[i], mm[0], mm[1], D, P, unload), std::max(1., ts[i]) * mm[0], 2e-6, "shear", "t=" + num(ts[i]));
                      ex.transition();
                    }
                }
              catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 700)); }
              ex.trace();
              ex.end();
            }
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  run<2>(ex);
  run<3>(ex);
  return ex.finish();
}
