// N01: line search driven through every bounded sequence of trial objective values.
#include "gcp_util.h"
#include <gCP/line_search.h>
using namespace vp;

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  std::cout.setstate(std::ios::failbit);
  const std::vector<double> rel = {0.0, 1e-30, 0.2, 0.5, 0.56, 0.9, 0.9999, 1.0, 1.0000001, 1.2, 2.0, 10.0, 1e4, 1e12};
  std::vector<double> f0s = {1.0, 3.7e-13, 8.1e7, 1e-60, 0.0};
  for (double alpha : {1e-4, 0.2, 0.45})
    for (unsigned nmax : {0u, 1u, 2u, 3u, 15u})
      for (double f0 : f0s)
        {
          const std::string key = "alpha=" + shortnum(alpha) + ";nmax=" + std::to_string(nmax) + ";f0=" + shortnum(f0);
          if (!ex.begin(key)) continue;
          ex.state_domain = key;
          gCP::RunTimeParameters::LineSearchParameters prm;
          prm.alpha = alpha;
          prm.beta = 0.9;
          prm.n_max_iterations = nmax;
          const int depth = std::min<int>(nmax + 2, ex.quick ? 4 : 5);
          const double unit = f0 > 0 ? f0 : 1.0;
          // every sequence of trial values: (stateless, each prefix replayed on a fresh
          // object and on an object that was used before)
          gCP::LineSearch used(prm);
          long nseq = 0;
          std::vector<int> seq;
          bool sampled = false;
          std::function<void(int)> rec = [&](int d) {
            for (size_t v = 0; v < rel.size(); ++v)
              {
                seq.push_back(v);
                gCP::LineSearch fresh(prm);
                bool accepted_last = false;
                for (int which = 0; which < 2; ++which)
                  {
                    gCP::LineSearch &ls = which ? used : fresh;
                    ls.reinit(f0, 3, 4);
                    double lambda = 1.0, lo = 0, flo = 0, lp = 0, flp = 0;
                    std::string w = "trial values/f0:";
                    bool dead = false;
                    for (size_t k = 0; k < seq.size() && !dead; ++k)
                      {
                        const double f = rel[seq[k]] * unit;
                        w += " " + shortnum(rel[seq[k]]);
                        ex.transition();
                        if (!ex.check(ls.get_n_iterations() == k, "counter", w + ": number of iterations " + std::to_string(ls.get_n_iterations()))) return;
                        const bool acc = ls.suficient_descent_condition(f, lambda);
                        const bool armijo = f < f0 - 2.0 * alpha * lambda * f0;
                        const double edge = std::abs(f - (f0 - 2.0 * alpha * lambda * f0));
                        const bool on_edge = edge <= 1e-13 * std::max(f0, f);
                        const bool exhausted = k > nmax;
                        if (f0 == 0.0 && f == 0.0)
                          ex.check(acc, "zero-residual-rejected", w + ": a trial that is as good as the exact solution is rejected");
                        else if (!on_edge || exhausted)
                          ex.check(acc == (armijo || exhausted), acc ? "accepted-without-descent" : "rejected-with-descent",
                                   w + ": lambda " + num(lambda));
                        if (k + 1 == seq.size()) accepted_last = acc;
                        if (acc) { dead = true; break; }
                        double ln;
                        try { ln = ls.get_lambda(f, lambda); }
                        catch (std::exception &e)
                          { ex.fail("throws", w + ": no step length computed: " + std::string(e.what()).substr(0, 300)); dead = true; accepted_last = true; break; }
                        ex.check(ls.get_n_iterations() == k + 1, "counter", w + ": iterations not counted");
                        if (!ex.check(std::isfinite(ln), "lambda-not-finite", w + ": lambda = " + num(ln))) { dead = true; accepted_last = true; break; }
                        ex.check(ln >= 0.1 * lambda * (1 - 1e-12) && ln <= 0.5 * lambda * (1 + 1e-12), "lambda-range",
                                 w + ": lambda " + num(ln) + " after " + num(lambda));
                        // reference interpolation
                        long double expect = -1, sens = 0;
                        if (k == 0)
                          {
                            expect = f0 == 0 ? 0.0L : (long double)f0 / ((long double)f + f0);
                          }
                        else
                          {
                            const long double s = -2.0L * f0, la = lambda, lb = lo;
                            const long double ra = (long double)f - f0 - la * s, rb = (long double)flo - f0 - lb * s;
                            const long double a = (ra / (la * la) - rb / (lb * lb)) / (la - lb);
                            const long double b = (-lb * ra / (la * la) + la * rb / (lb * lb)) / (la - lb);
                            const long double disc = b * b - 3 * a * s;
                            const long double mag = (std::abs(ra) / (la * la) + std::abs(rb) / (lb * lb)) / std::abs(la - lb);
                            if (std::abs(a) > 1e-6L * mag && disc > 1e-9L * (b * b) && b > -1e8L * std::abs(a))
                              {
                                expect = (-b + std::sqrt(disc)) / (3 * a);
                                // conditioning of the root with respect to the rounding of a, b
                                sens = 1e-13L * (mag * (1 + la)) / std::abs(a) * (1 + std::abs(expect)) * 50 *
                                       (1 + (std::abs(b) + std::abs(s)) / std::sqrt(disc));
                              }
                          }
                        if (expect >= 0 || (k && sens > 0))
                          {
                            long double lo_ = k == 0 ? 0.1L : 0.1L * lambda, hi_ = k == 0 ? 0.5L : 0.5L * lambda;
                            long double c = std::min(std::max(expect, lo_), hi_);
                            ex.close(ln, (double)c, 1.0, (double)(1e-10L + sens), "interpolation", w + ": step length");
                          }
                        flp = flo; lp = lo; (void)flp; (void)lp;
                        flo = f; lo = lambda;
                        lambda = ln;
                        ex.state(num(lambda) + "@" + std::to_string(k));
                      }
                    if (!dead && which == 0 && (long)seq.size() >= (long)nmax + 2)
                      ex.fail("does-not-terminate", w + ": " + std::to_string(seq.size()) + " trials rejected with at most " + std::to_string(nmax) + " iterations configured");
                  }
                ++nseq;
                if (!accepted_last && d + 1 < depth) rec(d + 1);
                else { ex.trace(); if (!sampled && d == 2) { sampled = true; std::string s = key + " : "; for (int i : seq) s += shortnum(rel[i]) + " "; ex.sample(s); } }
                seq.pop_back();
              }
          };
          rec(0);
          // long constant sequences: termination at the configured bound
          for (double r : rel)
            {
              gCP::LineSearch ls(prm);
              ls.reinit(f0);
              double lambda = 1.0;
              unsigned k = 0;
              try
                {
                  while (!ls.suficient_descent_condition(r * unit, lambda) && k < nmax + 5)
                    { lambda = ls.get_lambda(r * unit, lambda); ++k; ex.transition();
                      if (!ex.check(std::isfinite(lambda) && lambda > 0, "lambda-not-finite", "constant trial value " + shortnum(r) + " f0: lambda " + num(lambda))) break; }
                  ex.check(k <= nmax + 1, "does-not-terminate", "constant trial value " + shortnum(r) + " f0: " + std::to_string(k) + " iterations");
                }
              catch (std::exception &e)
                { ex.fail("throws", "constant trial value " + shortnum(r) + " f0, iteration " + std::to_string(k)); }
            }
          // geometric sequences (objective behaving like (1-c*lambda)^2 and like lambda^p growth)
          for (double c : {-2.0, -0.5, 0.01, 2.5, 30.0})
            for (double p : {1.0, 2.0, 3.0})
              {
                gCP::LineSearch ls(prm);
                ls.reinit(f0);
                double lambda = 1.0;
                unsigned k = 0;
                auto F = [&](double l) { return unit * (std::pow(1 - l, 2) + std::abs(c) * std::pow(l, p) * (c > 0 ? 1.0 : 0.25)); };
                try
                  {
                    while (!ls.suficient_descent_condition(F(lambda), lambda) && k < nmax + 5)
                      { lambda = ls.get_lambda(F(lambda), lambda); ++k; ex.transition();
                        if (!ex.check(std::isfinite(lambda) && lambda > 0, "lambda-not-finite", "model objective c=" + shortnum(c) + " p=" + shortnum(p) + ": lambda " + num(lambda))) break; }
                    ex.check(k <= nmax + 1, "does-not-terminate", "model objective");
                  }
                catch (std::exception &e)
                  { ex.fail("throws", "model objective c=" + shortnum(c) + " p=" + shortnum(p)); }
              }
          ex.close(gCP::LineSearch::get_objective_function_value(3.0), 4.5, 4.5, 1e-14, "objective", "objective of residual norm 3");
          // the log file holds one row per computed step length
          {
            gCP::LineSearch ls(prm);
            ls.reinit(1.0, 7, 8);
            double l = ls.get_lambda(5.0, 1.0);
            ls.reinit(2.0, 9, 10);
            double l2 = ls.get_lambda(1.9999999, 1.0);
            const std::string f = ex.workdir + "/ls.txt";
            ls.write_to_file(f);
            std::ifstream in(f);
            std::string line;
            std::vector<std::vector<double>> rows;
            while (std::getline(in, line))
              {
                if (line.find('S') != std::string::npos || line.find("--") != std::string::npos) continue;
                for (char &ch : line) if (ch == '|') ch = ' ';
                std::istringstream is(line);
                std::vector<double> r;
                double x;
                while (is >> x) r.push_back(x);
                if (!r.empty()) rows.push_back(r);
              }
            bool ok = rows.size() == 2 && rows[0].size() == 4 && rows[1].size() == 4;
            if (ok) ok = rows[0][0] == 7 && rows[0][1] == 8 && rows[0][2] == 1 && std::abs(rows[0][3] - l) < 1e-3 * l + 1e-9 &&
                         rows[1][0] == 9 && rows[1][1] == 10 && rows[1][2] == 1 && std::abs(rows[1][3] - l2) < 1e-3 * l2 + 1e-9;
            ex.check(ok, "log", "the step-length log does not hold the two computed rows");
          }
          ex.note("sequences", nseq);
          ex.end();
        }
  return ex.finish();
}
