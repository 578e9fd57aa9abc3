// L02: boundary functions over every lattice loading, point, instant and field layout.
#include "gcp_util.h"
#include <gCP/boundary_conditions.h>
using namespace vp;
using namespace gCP::RunTimeParameters;

static long double programme(const SimpleLoading &l, bool cyclic, double t, double D, double P, int c, double T0)
{
  if (!cyclic) return (long double)t * l.max_load;
  const long double amp = ((long double)l.max_load - l.min_load) / 2, mean = ((long double)l.max_load + l.min_load) / 2;
  const long double a = T0 + (long double)D, b = a + (long double)P * c;
  if (t < a) return mean * (t - T0) / D;
  if (t < b) return mean + amp * sinl(2 * 3.14159265358979323846264338L * (t - a) / P);
  return mean * (1 - (t - b) / D);
}

template <int dim>
void run(Explorer &ex)
{
  std::vector<std::array<double, 2>> loads = {{{0.02, 0.}}, {{1., 0.25}}, {{3e-3, 1e-3}}};
  for (int cyclic = 0; cyclic < 2; ++cyclic)
    for (double T0 : {0., 0.5})
      for (double D : {1., 0.3, 7.})
        for (double P : {1., 0.7})
          for (int c : {0, 1, 3})
            for (auto &ld : loads)
              for (double h : {1., 0.01, 30.})
                for (double u0 : {1., 2.5e-3})
                  for (unsigned nc : {1u, 2u, 3u})
                    for (int dec = 0; dec < 2; ++dec)
                      {
                        if (!cyclic && (P != 1. || c != 1)) continue;
                        const std::string key = "dim=" + std::to_string(dim) + ";" + (cyclic ? "cyclic" : "monotonic") + ";start=" + shortnum(T0) + ";duration=" + shortnum(D) + ";period=" + shortnum(P) + ";cycles=" + std::to_string(c) + ";max=" + shortnum(ld[0]) + ";min=" + shortnum(ld[1]) + ";height=" + shortnum(h) + ";scale=" + shortnum(u0) + ";crystals=" + std::to_string(nc) + ";decohesion=" + std::to_string(dec);
                        if (!ex.begin(key)) continue;
                        try
                          {
                            dealii::ParameterHandler prm;
                            SimpleLoading::declare_parameters(prm);
                            prm.parse_input_from_string(
                              "subsection 2. Temporal discretization parameters\n subsection Simple loading\n set Loading type = " + std::string(cyclic ? "cyclic" : "monotonic") +
                              "\n set Maximum load = " + num(ld[0]) + "\n set Minimum load = " + num(ld[1]) +
                              "\n subsection Monotonic load parameters\n set Duration of monotonic load = " + num(cyclic ? 3. : D) +
                              "\n end\n subsection Cyclic load parameters\n set Duration of un- and loading phase = " + num(cyclic ? D : 5.) +
                              "\n set Period = " + num(P) + "\n set Number of cycles = " + std::to_string(c) + "\n set Skip unloading phase = false\n end\n end\nend\n");
                            SimpleLoading l;
                            l.start_time = T0;
                            l.parse_parameters(prm);
                            const unsigned ns = 2, ncomp = (dec ? dim * nc : dim) + ns * nc;
                            const double end = cyclic ? T0 + 2 * D + P * c : T0 + D;
                            for (unsigned comp = 0; comp < dim; ++comp)
                              {
                                gCP::BoundaryConditions::DisplacementControl<dim> f(l, ncomp, nc, h, dec, u0, comp);
                                gCP::BoundaryConditions::LoadControl<dim> g(l, dec, u0);
                                ex.check(f.n_components == ncomp && f.get_time() == T0 && g.get_time() == T0, "start", "initial time or number of components");
                                std::vector<double> times = {T0, end};
                                for (int i = 1; i < 24; ++i) times.push_back(T0 + (end - T0) * i / 24);
                                if (cyclic)
                                  for (int i = 0; i <= 4 * c; ++i) times.push_back(T0 + D + P * i / 4.);
                                for (double t : times)
                                  {
                                    f.set_time(t);
                                    g.set_time(t);
                                    const double load = programme(l, cyclic, t, D, P, c, T0);
                                    const double scale = (cyclic ? 1. : std::max(1., end)) * ld[0];
                                    for (int pt = 0; pt < 2; ++pt)
                                      {
                                        dealii::Point<dim> x;
                                        for (unsigned d = 0; d < dim; ++d) x[d] = pt * (0.3 + d);
                                        dealii::Vector<double> v(ncomp);
                                        for (auto &e : v) e = 77.;
                                        f.vector_value(x, v);
                                        ex.transition();
                                        const std::string w = "component " + std::to_string(comp) + ", t=" + num(t) + ", ";
                                        for (unsigned k = 0; k < ncomp; ++k)
                                          {
                                            const bool loaded = dec ? (k < dim * nc && k % dim == comp) : k == comp;
                                            if (loaded) ex.close(v[k], load * h / u0, scale * h / u0, 1e-12, "displacement", w + "entry " + std::to_string(k));
                                            else ex.check(v[k] == 0., "other-components", w + "entry " + std::to_string(k) + " is " + num(v[k]));
                                          }
                                        if (comp == 0)
                                          {
                                            const auto tr = g.value(x);
                                            ex.close(tr[0], load / u0, scale / u0, 1e-12, "traction", w);
                                            for (unsigned d = 1; d < dim; ++d) ex.check(tr[d] == 0., "traction-direction", w);
                                          }
                                        ex.state(shortnum(v[comp]) + "/" + std::to_string(ncomp));
                                      }
                                  }
                              }
                          }
                        catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
                        ex.trace();
                        ex.sample(key);
                        ex.end();
                      }
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  run<2>(ex);
  run<3>(ex);
  return ex.finish();
}
