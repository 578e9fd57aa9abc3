// R02: characteristic quantities and dimensionless groups over the reference/material lattice.
#include "gcp_util.h"
using namespace vp;
using namespace gCP::RunTimeParameters;

struct In { double L, T, U, C, S, S0, l, p, H; };
static std::string text(const In &a, bool flag)
{
  return "subsection 6. Solver parameters\n subsection Constitutive laws' parameters\n subsection Vectorial microstress law's parameters\n set Initial slip resistance = " + num(a.S0) +
         "\n set Energetic length scale = " + num(a.l) + "\n set Defect energy index = " + num(a.p) +
         "\n end\n subsection Hardening law's parameters\n set Initial slip resistance = " + num(a.S0) + "\n set Linear hardening modulus = " + num(a.H) +
         "\n end\n end\n subsection Dimensionless formulation parameters\n set Solve the dimensionless problem = " + (flag ? "true" : "false") +
         "\n subsection Reference parameters\n set Reference length value = " + num(a.L) + "\n set Reference time value = " + num(a.T) + "\n set Reference displacement value = " + num(a.U) +
         "\n set Reference stiffness value = " + num(a.C) + "\n set Reference slip resistance value = " + num(a.S) + "\n end\n end\nend\n";
}
static std::vector<double> values(const DimensionlessForm &f)
{
  const auto &q = f.characteristic_quantities;
  std::vector<double> v = {q.length, q.time, q.displacement, q.stiffness, q.slip_resistance, q.strain, q.stress, q.resolved_shear_stress, q.macro_traction, q.micro_traction, q.body_force, q.dislocation_density};
  v.insert(v.end(), f.dimensionless_numbers.begin(), f.dimensionless_numbers.end());
  return v;
}
static const char *names[] = {"length", "time", "displacement", "stiffness", "slip resistance", "strain", "stress", "resolved shear stress", "macro traction", "micro traction", "body force", "dislocation density", "number 0", "number 1", "number 2", "number 3"};
static std::vector<double> direct(const In &a, bool flag)
{
  DimensionlessForm f;
  f.flag_solve_dimensionless_problem = flag;
  if (flag)
    {
      f.characteristic_quantities.length = a.L;
      f.characteristic_quantities.time = a.T;
      f.characteristic_quantities.displacement = a.U;
      f.characteristic_quantities.stiffness = a.C;
      f.characteristic_quantities.slip_resistance = a.S;
    }
  ConstitutiveLawsParameters c;
  c.vectorial_microstress_law_parameters.initial_slip_resistance = a.S0;
  c.vectorial_microstress_law_parameters.energetic_length_scale = a.l;
  c.vectorial_microstress_law_parameters.defect_energy_index = a.p;
  c.hardening_law_parameters.linear_hardening_modulus = a.H;
  f.init(c);
  return values(f);
}
// exponents of (L, T, U, C, S, S0, l, H) of every quantity; p enters as noted
static std::vector<std::array<double, 8>> exponents(double p)
{
  return {{{1, 0, 0, 0, 0, 0, 0, 0}}, {{0, 1, 0, 0, 0, 0, 0, 0}}, {{0, 0, 1, 0, 0, 0, 0, 0}}, {{0, 0, 0, 1, 0, 0, 0, 0}}, {{0, 0, 0, 0, 1, 0, 0, 0}},
          {{-1, 0, 1, 0, 0, 0, 0, 0}}, {{-1, 0, 1, 1, 0, 0, 0, 0}}, {{-1, 0, 1, 1, 0, 0, 0, 0}}, {{-1, 0, 1, 1, 0, 0, 0, 0}},
          {{1 - p, 0, 0, 0, 0, 1, p, 0}}, {{-2, 0, 1, 1, 0, 0, 0, 0}}, {{-1, 0, 0, 0, 0, 0, 0, 0}},
          {{1, 0, -1, 0, 0, 0, 0, 0}}, {{0, 0, 0, 0, -1, 0, 0, 1}}, {{-p, 0, 0, 0, -1, 1, p, 0}}, {{-1, 0, 1, 1, -1, 0, 0, 0}}};
}
int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  const std::vector<double> Ls = ex.quick ? std::vector<double>{1., 1e-3, 20.} : std::vector<double>{1., 1e-3, 20., 0.7, 1e5};
  for (double L : Ls)
    for (double T : {1., 0.25})
      for (double U : Ls)
        for (double C : {1., 38461.5, 1e-2})
          for (double S : {1., 20., 0.3})
            for (double S0 : {1., 20., 0.})
              for (double l : {1., 0.05, 0.})
                for (double p : {2., 1.5, 1.})
                  for (double H : {1., 0., 500.})
                    {
                      const In a{L, T, U, C, S, S0, l, p, H};
                      const std::string key = "L=" + shortnum(L) + ";T=" + shortnum(T) + ";U=" + shortnum(U) + ";C=" + shortnum(C) + ";S=" + shortnum(S) + ";S0=" + shortnum(S0) + ";l=" + shortnum(l) + ";p=" + shortnum(p) + ";H=" + shortnum(H);
                      if (!ex.begin(key)) continue;
                      try
                        {
                          const auto v = direct(a, true), off = direct(a, false);
                          ex.transition();
                          ex.check(v.size() == 16 && off.size() == 16, "count", "number of quantities");
                          const auto e = exponents(p);
                          const double in[8] = {L, T, U, C, S, S0, l, H};
                          bool unit = true;
                          for (double x : in) unit = unit && x == 1.;
                          for (int k = 0; k < 16; ++k)
                            {
                              long double r = 1;
                              for (int j = 0; j < 8; ++j) r *= e[k][j] == 0 ? 1.L : powl(in[j], e[k][j]);
                              ex.close(v[k], r, r == 0 ? 1e-290 : (double)r, 1e-13, "value", std::string(names[k]));
                              ex.check(off[k] == 1., "disabled", std::string(names[k]) + " is " + num(off[k]) + " although the dimensionless formulation is disabled");
                              if (unit) ex.check(v[k] == 1., "unit", std::string(names[k]) + " is " + num(v[k]) + " for a unit reference set");
                              ex.state(std::string(names[k]) + num(v[k]));
                            }
                          // defining products
                          ex.close(v[5] * v[0], v[2], v[2], 1e-13, "product", "strain x length = displacement");
                          ex.close(v[3] * v[5], v[6], v[6], 1e-13, "product", "stiffness x strain = stress");
                          ex.close(v[10] * v[0], v[6], v[6], 1e-13, "product", "body force x length = stress");
                          ex.close(v[11] * v[0], 1., 1., 1e-13, "product", "dislocation density x length = 1");
                          ex.close(v[12] * v[5], 1., 1., 1e-13, "product", "number 0 x strain = 1");
                          ex.close(v[13] * v[4], H, std::max(H, 1e-300), 1e-13, "product", "number 1 x slip resistance = hardening modulus");
                          ex.close(v[14] * v[4] * v[0], v[9], v[9], 1e-13, "product", "number 2 x slip resistance x length = micro traction");
                          ex.close(v[15] * v[4], v[6], v[6], 1e-13, "product", "number 3 x slip resistance = stress");
                          // every rescaling of one base quantity
                          for (int j = 0; j < 8; ++j)
                            for (double s : {2., 0.125})
                              {
                                In b = a;
                                double *t[8] = {&b.L, &b.T, &b.U, &b.C, &b.S, &b.S0, &b.l, &b.H};
                                *t[j] *= s;
                                const auto w = direct(b, true);
                                ex.transition();
                                for (int k = 0; k < 16; ++k)
                                  {
                                    const double r = v[k] * std::pow(s, e[k][j]);
                                    ex.close(w[k], r, r, 1e-13, "rescaling", std::string(names[k]) + " after scaling input " + std::to_string(j) + " by " + num(s));
                                  }
                              }
                          // the same values by way of a parameter file
                          if (T == 1. || !ex.quick)
                            if ((C == 1.) == (S == 1.))
                              for (int flag = 0; flag < 2; ++flag)
                                {
                                  dealii::ParameterHandler prm;
                                  prm.enter_subsection("4. Output parameters");
                                  prm.declare_entry("Graphical output directory", ex.workdir + "/", dealii::Patterns::DirectoryName());
                                  prm.leave_subsection();
                                  SolverParameters::declare_parameters(prm);
                                  prm.parse_input_from_string(text(a, flag));
                                  SolverParameters sp;
                                  sp.parse_parameters(prm);
                                  const auto w = values(sp.dimensionless_form_parameters);
                                  ex.transition();
                                  ex.check(sp.dimensionless_form_parameters.flag_solve_dimensionless_problem == bool(flag), "parsed", "flag");
                                  for (int k = 0; k < 16; ++k)
                                    ex.check(w[k] == (flag ? v[k] : 1.), "parsed", std::string(names[k]) + " read from a file is " + num(w[k]));
                                }
                        }
                      catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
                      ex.trace();
                      ex.sample(key);
                      ex.end();
                    }
  return ex.finish();
}
