// O01: every named output at every evaluation point against quantities computed from the affine fields.
#include "field_util.h"
#include <gCP/postprocessing.h>
#include <deal.II/numerics/data_out.h>
using namespace vp;
using namespace dealii;

static const int V[6][2] = {{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}};
static const char *VN[6] = {"11", "22", "33", "23", "13", "12"};

template <int dim>
void run(Explorer &ex)
{
  const std::array<double, 3> C{{168.4, 121.4, 75.4}};
  std::vector<Row> angs, dirs, norms;
  if (dim == 2) { angs = {{20.}, {-55.}, {100.}}; dirs = {{1, 0}, {1, 1}, {-1, 2}}; norms = {{0, 1}, {-1, 1}, {2, 1}}; }
  else { angs = {{20., 40., 70.}, {0., 55., -30.}, {100., 10., 200.}}; dirs = {{0, 1, -1}, {1, 0, 1}, {1, 0, 0}}; norms = {{1, 1, 1}, {-1, 1, 1}, {0, 1, 2}}; }
  struct Var { std::vector<unsigned> mat; unsigned nc; };
  const std::vector<Var> layouts = {{{0}, 1}, {{0, 0}, 1}, {{0, 1}, 2}, {{1, 0}, 2}, {{0, 1, 0}, 2}, {{0, 1, 2}, 3}, {{2, 0, 1}, 3}};
  for (auto &lay : layouts)
    for (unsigned ns : {1u, 2u, 3u})
      for (int dec = 0; dec < 2; ++dec)
        for (unsigned pu : {1u, 2u})
          for (int dimless = 0; dimless < 2; ++dimless)
            for (int outdim = 0; outdim < 2; ++outdim)
              for (int mode = 0; mode < 3; ++mode) // full, light, full + fluctuations
                for (int pat = 0; pat < (ex.quick ? 4 : 8); ++pat)
                  {
                    if (ex.quick && pu == 2 && (pat % 2 || mode == 1)) continue;
                    std::string ms;
                    for (auto m : lay.mat) ms += std::to_string(m);
                    const std::string key = "dim=" + std::to_string(dim) + ";cells=" + ms + ";slips=" + std::to_string(ns) + ";decohesion=" + std::to_string(dec) + ";pu=" + std::to_string(pu) + ";dimensionless=" + std::to_string(dimless) + ";raw=" + std::to_string(outdim) + ";mode=" + std::to_string(mode) + ";pattern=" + std::to_string(pat);
                    if (!ex.begin(key)) continue;
                    try
                      {
                        Triangulation<dim> tria;
                        row_mesh<dim>(tria, lay.mat, {{0.5, 0.75, 1.25}});
                        std::vector<Row> an(angs.begin(), angs.begin() + lay.nc), d(dirs.begin(), dirs.begin() + ns), n(norms.begin(), norms.begin() + ns);
                        auto cd = make_crystals<dim>(ex.workdir, an, d, n, &tria);
                        std::shared_ptr<gCP::FEField<dim>> field = make_field<dim>(tria, lay.nc, ns, dec, pu, 1);
                        MappingQ<dim> mapping(1);
                        std::vector<Affine> f(lay.nc);
                        unsigned r = 17 * pat + 3;
                        auto val = [&](double s) { r = (r * 1103515245u + 12345u) & 0x7fffffff; return s * (int(r >> 8) % 17 - 8) / 8.; };
                        for (unsigned c = 0; c < lay.nc; ++c)
                          {
                            f[c].g0.resize(ns);
                            f[c].g.resize(ns);
                            for (int i = 0; i < dim; ++i)
                              {
                                f[c].a[i] = pat == 0 ? 0. : val(0.3);
                                for (int j = 0; j < dim; ++j) f[c].G[i][j] = pat == 0 ? 0. : val(0.02);
                              }
                            if (!dec && c) { memcpy(f[c].a, f[0].a, sizeof(f[0].a)); f[c].G = f[0].G; }
                            for (unsigned k = 0; k < ns; ++k)
                              {
                                f[c].g0[k] = pat == 1 ? 0. : val(0.1);
                                for (int j = 0; j < 3; ++j) f[c].g[k][j] = pat == 1 || j >= dim ? 0. : val(0.05);
                              }
                          }
                        set_field<dim>(*field, f, mapping);
                        gCP::RunTimeParameters::DimensionlessForm df;
                        double L = 1, u0 = 1;
                        if (dimless)
                          {
                            df.flag_solve_dimensionless_problem = true;
                            L = df.characteristic_quantities.length = 2.5;
                            u0 = df.characteristic_quantities.displacement = 0.05;
                            df.characteristic_quantities.stiffness = 80.;
                            df.characteristic_quantities.slip_resistance = 0.02;
                            df.init(gCP::RunTimeParameters::ConstitutiveLawsParameters());
                          }
                        const double E0 = dimless ? 80. : 1.; // characteristic stiffness: the law below is C/E0
                        const double kappa = L / u0;          // strain = u0/L * (grad u - ...)
                        const bool scaled = dimless && !outdim;
                        const double su = scaled ? u0 : 1, se = scaled ? u0 / L : 1, ss = scaled ? E0 * u0 / L : 1, sd = scaled ? 1 / L : 1;
                        gCP::RunTimeParameters::HookeLawParameters hp;
                        hp.C1111 = C[0]; hp.C1122 = C[1]; hp.C1212 = C[2];
                        auto hooke = std::make_shared<gCP::ConstitutiveLaws::HookeLaw<dim>>(cd, hp, E0);
                        hooke->init();
                        gCP::Postprocessing::Postprocessor<dim> pp(field, cd, df, mode == 1, outdim, mode == 2);
                        SymmetricTensor<2, dim> macro;
                        M3 mac;
                        if (pat == 3)
                          for (int i = 0; i < dim; ++i) for (int j = i; j < dim; ++j) { macro[i][j] = 0.01 * (i + 1) - 0.02 * j; mac[i][j] = mac[j][i] = macro[i][j]; }
                        if (pat == 3) pp.set_macroscopic_strain(macro);
                        if (mode != 1) pp.init(hooke);
                        // expected names
                        std::vector<std::string> names(dim, "Displacement");
                        for (unsigned k = 0; k < ns; ++k) names.push_back("Slip_0" + std::to_string(k + 1));
                        if (mode != 1)
                          {
                            for (auto s : {"EquivalentPlasticStrain", "EquivalentAbsolutePlasticStrain", "EquivalentEdgeDislocationDensity", "EquivalentScrewDislocationDensity", "VonMisesStress", "VonMisesPlasticStrain"}) names.push_back(s);
                            for (auto s : {"Stress_", "Strain_", "ElasticStrain_", "PlasticStrain_"})
                              for (int i = 0; i < 6; ++i) names.push_back(std::string(s) + VN[i] + (i > 2 && s[1] != 't' ? "x2" : (i > 2 && std::string(s) == "Strain_" ? "x2" : "")));
                            if (mode == 2)
                              {
                                names.push_back("VonMisesStressFluctuations");
                                for (int i = 0; i < 6; ++i) names.push_back(std::string("StressFluctuations_") + VN[i]);
                                for (int i = 0; i < 6; ++i) names.push_back(std::string("StrainFluctuations_") + VN[i] + (i > 2 ? "x2" : ""));
                              }
                          }
                        const auto got = pp.get_names();
                        ex.check(got == names, "names", "got " + std::to_string(got.size()) + " names, expected " + std::to_string(names.size()));
                        ex.check(pp.get_data_component_interpretation().size() == got.size(), "interpretations", std::to_string(pp.get_data_component_interpretation().size()));
                        DataOut<dim> out;
                        out.attach_dof_handler(field->get_dof_handler());
                        out.add_data_vector(field->solution, pp);
                        out.build_patches(mapping, 2, DataOut<dim>::curved_inner_cells);
                        const auto &patches = out.get_patches();
                        ex.check(patches.size() == lay.mat.size(), "patches", std::to_string(patches.size()));
                        const auto sys = rotated_systems(dim, an, d, n);
                        unsigned pi = 0;
                        for (auto &cell : field->get_dof_handler().active_cell_iterators())
                          {
                            const auto &P = patches[pi++];
                            const unsigned c = cell->material_id();
                            unsigned q = 0;
                            const int nn = 3;
                            for (int z = 0; z < (dim == 3 ? nn : 1); ++z) for (int y = 0; y < nn; ++y) for (int xx = 0; xx < nn; ++xx, ++q)
                              {
                                double x[3] = {0, 0, 0};
                                const int ii[3] = {xx, y, z};
                                for (int i = 0; i < dim; ++i)
                                  {
                                    const double lo = cell->vertex(0)[i], hi = cell->vertex((1 << dim) - 1)[i];
                                    x[i] = lo + (hi - lo) * ii[i] / 2.;
                                  }
                                std::map<std::string, double> e;
                                M3 strain, plastic, elastic, sfl;
                                double eq = 0, ab = 0, ed = 0, sc = 0;
                                for (unsigned k = 0; k < ns; ++k)
                                  {
                                    const double g = f[c].slip(k, x);
                                    e[names[dim + k]] = g;
                                    eq += g;
                                    ab += std::abs(g);
                                    double a = 0, b = 0;
                                    for (int j = 0; j < dim; ++j) { a += f[c].g[k][j] * sys[c][k].s[j]; b += f[c].g[k][j] * sys[c][k].l[j]; }
                                    ed += a * a;
                                    sc += b * b;
                                    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) plastic[i][j] += g * 0.5 * (sys[c][k].s[i] * sys[c][k].m[j] + sys[c][k].s[j] * sys[c][k].m[i]);
                                  }
                                M3 fl, efl;
                                for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
                                  {
                                    fl[i][j] = 0.5 * (f[c].G[i][j] + f[c].G[j][i]);
                                    strain[i][j] = fl[i][j] + mac[i][j];
                                    elastic[i][j] = strain[i][j] - kappa * plastic[i][j];
                                    efl[i][j] = fl[i][j] - kappa * plastic[i][j];
                                  }
                                std::array<double, 3> Cs{{C[0] / E0, C[1] / E0, C[2] / E0}};
                                const M3 S = stress_of(elastic, an[c], Cs), SF = stress_of(efl, an[c], Cs);
                                e["EquivalentPlasticStrain"] = eq;
                                e["EquivalentAbsolutePlasticStrain"] = ab;
                                e["EquivalentEdgeDislocationDensity"] = sd * std::sqrt(ed);
                                if (dim == 3) e["EquivalentScrewDislocationDensity"] = sd * std::sqrt(sc);
                                e["VonMisesStress"] = ss * von_mises(S, 1.5);
                                e["VonMisesPlasticStrain"] = von_mises(plastic, 2. / 3.);
                                e["VonMisesStressFluctuations"] = ss * von_mises(SF, 1.5);
                                for (int i = 0; i < 6; ++i)
                                  {
                                    const int a = V[i][0], b = V[i][1];
                                    const double m = i < 3 ? 1 : 2;
                                    const std::string t = std::string(VN[i]) + (i > 2 ? "x2" : "");
                                    e[std::string("Stress_") + VN[i]] = ss * S[a][b];
                                    e["Strain_" + t] = se * m * strain[a][b];
                                    e["ElasticStrain_" + t] = se * m * elastic[a][b];
                                    e["PlasticStrain_" + t] = m * plastic[a][b];
                                    e[std::string("StressFluctuations_") + VN[i]] = ss * SF[a][b];
                                    e["StrainFluctuations_" + t] = se * m * fl[a][b];
                                  }
                                if (!ex.check(P.data.n_rows() >= names.size() && q < P.data.n_cols(), "size", "too few components in the output")) break;
                                ex.transition();
                                for (unsigned v = 0; v < names.size(); ++v)
                                  {
                                    const double g = P.data(v, q);
                                    double want, scale = 1e-3;
                                    if (v < (unsigned)dim) { want = su * f[c].u(v, x); scale = su; }
                                    else
                                      {
                                        auto it = e.find(names[v]);
                                        if (it == e.end()) continue;
                                        want = it->second;
                                        if (names[v].find("tress") != std::string::npos) scale = ss * (C[0] + C[1]) / E0 * kappa * 0.1;
                                        else if (names[v].find("Dislocation") != std::string::npos) scale = sd * 0.1;
                                        else if (names[v][0] == 'S' && names[v][1] == 't') scale = se;
                                        else if (names[v][0] == 'E' && names[v][1] == 'l') scale = se * kappa;
                                        else scale = 1;
                                      }
                                    ex.close(g, want, scale, 2e-6, names[v].substr(0, names[v].find('_')), names[v] + " entry " + std::to_string(v) + " in crystal " + std::to_string(c) + ", point " + std::to_string(q));
                                    if (v >= (unsigned)dim && v % 5 == 0) ex.state(shortnum(want));
                                  }
                              }
                          }
                        // a full postprocessor must be initialised before use, whatever the memory held before
                        for (int fillb : {0x00, 0x01, 0xff})
                          {
                            using PP = gCP::Postprocessing::Postprocessor<dim>;
                            std::vector<std::max_align_t> mem(sizeof(PP) / sizeof(std::max_align_t) + 1);
                            memset(mem.data(), fillb, sizeof(PP));
                            auto *raw = new (mem.data()) PP(field, cd, df, false, outdim, mode == 2);
                            std::string msg;
                            try { DataPostprocessorInputs::Vector<dim> in; std::vector<Vector<double>> o; raw->evaluate_vector_field(in, o); } catch (std::exception &e2) { msg = e2.what(); }
                            ex.check(msg.find("not been initialized") != std::string::npos, "uninitialised", "a postprocessor without elastic law was evaluated");
                            raw->~PP();
                          }
                        // slip-based postprocessor: sum over crystals of absolute slips
                        if (mode == 0)
                          {
                            gCP::Postprocessing::SlipBasedPostprocessor<dim> sp;
                            std::shared_ptr<const gCP::CrystalsData<dim>> ccd = cd;
                            sp.reinit(ccd, "value_", field->get_n_components(), dec);
                            const auto nm = sp.get_names();
                            ex.check(nm.size() == ns && sp.get_data_component_interpretation().size() == ns && nm[0] == "value_0" && nm[ns - 1] == "value_" + std::to_string(ns - 1), "slip-names", "");
                            DataOut<dim> o2;
                            o2.attach_dof_handler(field->get_dof_handler());
                            o2.add_data_vector(field->solution, sp);
                            o2.build_patches(mapping, 1, DataOut<dim>::curved_inner_cells);
                            pi = 0;
                            for (auto &cell : field->get_dof_handler().active_cell_iterators())
                              {
                                const auto &P = o2.get_patches()[pi++];
                                for (unsigned q = 0; q < (1u << dim); ++q)
                                  {
                                    double x[3] = {0, 0, 0};
                                    for (int i = 0; i < dim; ++i) x[i] = cell->vertex(q)[i];
                                    for (unsigned k = 0; k < ns; ++k) ex.close(P.data(k, q), std::abs(f[cell->material_id()].slip(k, x)), 1., 2e-6, "slip-value", "slip " + std::to_string(k));
                                  }
                              }
                          }
                      }
                    catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 700)); }
                    ex.trace();
                    ex.sample(key);
                    ex.end();
                  }
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  run<2>(ex);
  run<3>(ex);
  return ex.finish();
}
