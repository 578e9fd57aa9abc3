// C07: contact law and degradation function.
#include "gcp_util.h"
#include <gCP/constitutive_laws.h>
using namespace vp;
namespace RTP = gCP::RunTimeParameters;

template <int dim>
void contact(Explorer &ex)
{
  using namespace dealii;
  std::vector<Tensor<1, dim>> normals;
  std::vector<int> idx(dim, 0);
  do
    {
      Tensor<1, dim> n;
      for (int i = 0; i < dim; ++i) n[i] = (idx[i] - 1) * (i == 1 ? 0.7 : 1.0);
      if (n.norm() > 0) normals.push_back(n / n.norm());
    }
  while (next(idx, std::vector<int>(dim, 3)));
  for (unsigned in = 0; in < normals.size(); ++in)
    for (double pen : {0.0, 1.0, 5e4})
      for (double cs : {1.0, 7.0})
        for (double cu : {1.0, 0.2})
          {
            const std::string key = "contact;dim=" + std::to_string(dim) + ";normal=" + tstr(normals[in]) + ";penalty=" + shortnum(pen) + ";cs=" + shortnum(cs) + ";cu=" + shortnum(cu);
            if (!ex.begin(key)) continue;
            RTP::ContactLawParameters prm;
            prm.penalty_coefficient = pen;
            gCP::ConstitutiveLaws::ContactLaw<dim> law(prm, cs, cu);
            const auto n = normals[in];
            const double lv[] = {0.0, 1e-6, -1e-6, 0.5, -0.5, -20.0, 20.0};
            std::vector<int> k(dim, 0);
            do
              {
                // openings along the normal plus tangential parts (any vector without its normal part)
                Tensor<1, dim> u, t;
                for (int i = 1; i < dim; ++i) t[i] = lv[k[i]];
                t -= (t * n) * n;
                const double dn = lv[k[0]];
                u = dn * n + t;
                const auto T = law.get_contact_traction(u, n);
                const auto J = law.get_jacobian(u, n);
                ex.transition();
                const double real = u * n, rs = 1e-14 * (u.norm() + 1e-30);
                const std::string w = "normal opening " + num(dn) + " tangential " + tstr(t);
                const double K = pen * cu / cs, ts = K * (u.norm() + 1e-30) + 1e-300;
                Tensor<1, dim> ref;
                if (dn < 0) ref = -K * (-dn) * n;
                ex.check((T - ref).norm() <= 1e-12 * ts, "traction", "traction " + tstr(T) + " expected " + tstr(ref) + "; " + w);
                if (dn > rs) ex.check(T.norm() == 0, "open", "contact traction without penetration; " + w);
                if (std::abs(dn) > 1e-9 * t.norm() && dn != 0)
                  for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j)
                    ex.close(J[i][j], dn < 0 ? pen / cs * n[i] * n[j] : 0.0, pen / cs + 1e-30, 1e-12, "jacobian", "entry " + std::to_string(i) + std::to_string(j) + "; " + w);
                bool fin = true;
                for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) fin = fin && std::isfinite(J[i][j]);
                ex.check(fin, "jacobian-finite", "jacobian not finite; " + w);
                (void)real;
              }
            while (next(k, std::vector<int>(dim, 7)));
            ex.state(key);
            ex.trace();
            ex.end();
          }
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  contact<2>(ex);
  contact<3>(ex);
  for (double p : {0.5, 1.0, 1.5, 2.0, 3.0, 10.0})
    {
      const std::string key = "degradation;exponent=" + shortnum(p);
      if (!ex.begin(key)) continue;
      RTP::DegradationFunction prm;
      prm.degradation_exponent = p;
      gCP::ConstitutiveLaws::DegradationFunction f(prm);
      double prev = 1.0;
      const int N = 4096;
      for (int i = 0; i <= N; ++i)
        {
          const double d = (double)i / N;
          const std::string w = "damage " + num(d);
          const double v = f.get_degradation_function_value(d, true);
          ex.transition();
          ex.close(v, powl(1.0L - d, p), 1.0, 1e-14, "value", w);
          ex.check(v <= prev && v >= 0 && v <= 1, "monotone", "not within [0,1] and non-increasing at " + w);
          prev = v;
          ex.check(f.get_degradation_function_value(d, false) == 1.0, "uncoupled", "uncoupled value is not one at " + w);
          ex.check(f.get_degradation_function_derivative_value(d, false) == 0.0, "uncoupled-derivative", "the derivative of the (constant) uncoupled function is not zero at " + w);
          if (p >= 1 || i < N)
            {
              const long double r = -p * powl(1.0L - d, p - 1);
              ex.close(f.get_degradation_function_derivative_value(d, true), r, p + fabsl(r), 1e-13, "derivative", w);
            }
        }
      ex.check(f.get_degradation_function_value(0.0, true) == 1.0, "intact", "intact material is degraded");
      ex.check(f.get_degradation_function_value(1.0, true) == 0.0, "broken", "broken material is not fully degraded");
      ex.state(key);
      ex.trace();
      ex.sample(key);
      ex.end();
    }
  return ex.finish();
}
