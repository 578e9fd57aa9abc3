// U01: helper functions.
#include "gcp_util.h"
#include <gCP/utilities.h>
#include <dirent.h>
using namespace vp;
namespace U = gCP::Utilities;
namespace RTP = gCP::RunTimeParameters;

static long double reg(int f, long double x)
{
  const long double pi = 3.14159265358979323846264338327950288L;
  switch (f)
    {
      case 0: return 2 / pi * atanl(pi / 2 * x);
      case 1: return x / sqrtl(1 + x * x);
      case 2: return 2 / pi * atanl(sinhl(pi / 2 * x));
      case 3: return tanhl(x);
      default: return erfl(sqrtl(pi) / 2 * x);
    }
}
static long double dreg(int f, long double x)
{
  const long double pi = 3.14159265358979323846264338327950288L;
  switch (f)
    {
      case 0: return 1 / (1 + pi * pi / 4 * x * x);
      case 1: return powl(1 + x * x, -1.5L);
      case 2: return 1 / coshl(pi / 2 * x);
      case 3: return 1 / (coshl(x) * coshl(x));
      default: return expl(-pi / 4 * x * x);
    }
}
static std::vector<std::vector<double>> parse(const std::string &s, std::vector<std::string> *lines = nullptr)
{
  std::vector<std::vector<double>> r;
  std::istringstream is(s);
  std::string l;
  while (std::getline(is, l))
    {
      if (lines) lines->push_back(l);
      std::istringstream ls(l);
      std::vector<double> v;
      std::string t;
      while (ls >> t) v.push_back(atof(t.c_str()));
      r.push_back(v);
    }
  return r;
}
static bool same(double a, double b, int prec, bool sci)
{
  if (sci) return std::abs(a - b) <= 0.5000001 * std::pow(10.0, -prec) * std::pow(10.0, std::floor(std::log10(std::abs(b) + 1e-300)));
  return std::abs(a - b) <= 0.5000001 * std::pow(10.0, -prec) + 1e-15 * std::abs(b);
}

template <int dim>
void strings(Explorer &ex)
{
  using namespace dealii;
  for (unsigned off : {0u, 3u, 7u})
    for (unsigned width : {12u, 15u, 24u})
      for (unsigned prec : {2u, 6u, 9u})
        for (bool sci : {false, true})
          {
            const std::string key = "strings;dim=" + std::to_string(dim) + ";offset=" + std::to_string(off) + ";width=" + std::to_string(width) + ";precision=" + std::to_string(prec) + ";sci=" + std::to_string(sci);
            if (!ex.begin(key)) continue;
            const bool fits = width >= prec + 9;
            auto cell = [&](double v) {
              char b[80];
              snprintf(b, 80, sci ? "%+.*e" : "%+.*f", (int)prec, v);
              std::string s = b;
              while (s.size() < width) s += ' ';
              return s;
            };
            auto grid = [&](const std::vector<std::vector<double>> &g) {
              std::string s;
              for (size_t i = 0; i < g.size(); ++i)
                {
                  for (double v : g[i]) s += cell(v);
                  if (i + 1 < g.size()) s += "\n" + std::string(off, ' ');
                }
              return s;
            };
            auto cmp = [&](const std::string &got, const std::vector<std::vector<double>> &ref, const std::string &what) {
              ex.transition();
              auto p = parse(got);
              bool ok = p.size() == ref.size();
              for (size_t i = 0; ok && i < ref.size(); ++i)
                {
                  ok = p[i].size() == ref[i].size();
                  for (size_t j = 0; ok && j < ref[i].size(); ++j) ok = same(p[i][j], ref[i][j], prec, sci);
                }
              if (fits) ex.check(ok, "string-values", what + " does not parse back: " + got);
              ex.check(got == grid(ref), "string-layout", what + " is not laid out as requested: \"" + got + "\"");
            };
            const double vals[] = {0.0, 1.0, -2.5, 0.03125, 12.75, -0.5, 3.0, 100.0, -7.25};
            Tensor<1, dim> v;
            for (int i = 0; i < dim; ++i) v[i] = vals[i + 1];
            std::vector<std::vector<double>> rv(1);
            for (int i = 0; i < dim; ++i) rv[0].push_back(v[i]);
            cmp(U::get_tensor_as_string(v, width, prec, sci), rv, "vector");
            Tensor<2, dim> t;
            SymmetricTensor<2, dim> s;
            std::vector<std::vector<double>> rt(dim, std::vector<double>(dim)), rs = rt;
            for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) rt[i][j] = t[i][j] = vals[(3 * i + j) % 9];
            for (int i = 0; i < dim; ++i) for (int j = i; j < dim; ++j) { s[i][j] = vals[(2 * i + 3 * j) % 9]; rs[i][j] = rs[j][i] = s[i][j]; }
            cmp(U::get_tensor_as_string(t, off, width, prec, sci), rt, "tensor");
            cmp(U::get_tensor_as_string(s, off, width, prec, sci), rs, "symmetric tensor");
            SymmetricTensor<4, dim> q;
            std::vector<std::pair<int, int>> vo;
            if (dim == 2) vo = {{0, 0}, {1, 1}, {0, 1}};
            else vo = {{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}};
            std::vector<std::vector<double>> rq(vo.size(), std::vector<double>(vo.size()));
            for (size_t i = 0; i < vo.size(); ++i) for (size_t j = 0; j < vo.size(); ++j) rq[i][j] = q[vo[i].first][vo[i].second][vo[j].first][vo[j].second] = 1.0 + i + 0.125 * j;
            cmp(U::print_tetrad(q, off, width, prec, sci), rq, "tetrad in Voigt order");
            for (unsigned m = 1; m <= 3; ++m) for (unsigned n = 1; n <= 3; ++n)
              {
                FullMatrix<double> M(m, n);
                std::vector<std::vector<double>> rm(m, std::vector<double>(n));
                for (unsigned i = 0; i < m; ++i) for (unsigned j = 0; j < n; ++j) rm[i][j] = M(i, j) = vals[(i * 4 + j) % 9];
                cmp(U::get_fullmatrix_as_string(M, off, width, prec, sci), rm, "matrix");
              }
            ex.state(key);
            ex.trace();
            ex.end();
          }
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  const double inf = std::numeric_limits<double>::max(), tiny = std::numeric_limits<double>::denorm_min();
  std::vector<double> xs;
  for (double v : {0.0, -0.0, tiny, 1e-300, 2.2e-16, 1e-8, 0.1, 0.5, 1.0, 1.5, 3.0, 77.0, 1e5, 1e12, 1e300, inf}) { xs.push_back(v); xs.push_back(-v); }
  if (ex.begin("brackets"))
    {
      for (double x : xs)
        {
          ex.transition();
          const double m = U::macaulay_brackets(x), s = U::signum_function(x);
          ex.check(m == (x > 0 ? x : 0.0), "macaulay", "bracket of " + num(x) + " is " + num(m));
          ex.check(s == (x > 0 ? 1.0 : x < 0 ? -1.0 : 0.0), "signum", "sign of " + num(x) + " is " + num(s));
          ex.check(U::macaulay_brackets(x) - U::macaulay_brackets(-x) == x, "macaulay", "<x> - <-x> != x at " + num(x));
          ex.check(s * std::abs(x) == x, "signum", "sgn(x)|x| != x at " + num(x));
        }
      ex.state("brackets");
      ex.trace();
      ex.end();
    }
  const RTP::RegularizationFunction fs[] = {RTP::RegularizationFunction::Atan, RTP::RegularizationFunction::Sqrt, RTP::RegularizationFunction::Gd,
                                            RTP::RegularizationFunction::Tanh, RTP::RegularizationFunction::Erf};
  for (int f = 0; f < 5; ++f)
    for (double p : {1e-6, 3e-4, 0.1, 1.0, 25.0, 1e4})
      {
        const std::string key = "sigmoid=" + std::to_string(f) + ";parameter=" + shortnum(p);
        if (!ex.begin(key)) continue;
        double prev = -2;
        for (int i = -4000; i <= 4000; ++i)
          {
            const double x = (i < 0 ? -1 : 1) * p * 1e-4 * (std::exp(std::abs(i) * 0.005) - 1);
            const long double xi = (long double)x / p;
            ex.transition();
            const double v = U::sigmoid_function(x, p, fs[f]), d = U::sigmoid_function_derivative(x, p, fs[f]);
            ex.close(v, reg(f, xi), 1.0, 1e-14, "sigmoid", "value at " + num(x));
            ex.close(d, dreg(f, xi) / p, 1.0 / p, 1e-13, "sigmoid-derivative", "derivative at " + num(x));
            ex.check(std::abs(v) <= 1 && v >= prev - 1e-15, "sigmoid-bound", "not bounded and monotone at " + num(x));
            ex.check(U::sigmoid_function(-x, p, fs[f]) == -v, "sigmoid-odd", "not odd at " + num(x));
            prev = v;
          }
        ex.state(key);
        ex.trace();
        ex.sample(key);
        ex.end();
      }
  // all pairs of short file contents
  {
    std::vector<std::string> c = {""};
    const std::string al("a\n\0b", 4);
    for (size_t lo = 0, len = 0; len < 3; ++len)
      {
        const size_t hi = c.size();
        for (size_t k = lo; k < hi; ++k) for (char ch : al) c.push_back(c[k] + ch);
        lo = hi;
      }
    c.push_back(std::string(70000, 'x'));
    c.push_back(std::string(70000, 'x'));
    c.back()[69999] = 'y';
    c.push_back(std::string(70000, 'x'));
    c.back()[0] = 'y';
    c.push_back(std::string(70001, 'x'));
    for (size_t i = 0; i < c.size(); ++i)
      {
        if (!ex.begin("files;first=" + std::to_string(i))) continue;
        const std::string f1 = ex.workdir + "/f1", f2 = ex.workdir + "/f2";
        std::ofstream(f1, std::ios::binary) << c[i];
        for (size_t j = 0; j < c.size(); ++j)
          {
            std::ofstream(f2, std::ios::binary | std::ios::trunc) << c[j];
            ex.transition();
            ex.check(U::files_are_identical(f1, f2) == (c[i] == c[j]), "files", "comparison of files " + std::to_string(i) + " and " + std::to_string(j) + " is wrong");
            ex.check(U::files_are_identical(f2, f1) == (c[i] == c[j]), "files", "comparison of files " + std::to_string(j) + " and " + std::to_string(i) + " is wrong");
          }
        ex.check(U::files_are_identical(f1, f1), "files", "a file differs from itself");
        ex.check(!U::files_are_identical(f1, ex.workdir + "/none") && !U::files_are_identical(ex.workdir + "/none", f1) && !U::files_are_identical(ex.workdir + "/none", ex.workdir + "/none"), "files", "a missing file is identical to something");
        ex.state("files" + std::to_string(i));
        ex.trace();
        ex.end();
      }
  }
  strings<2>(ex);
  strings<3>(ex);
  return ex.finish();
}
