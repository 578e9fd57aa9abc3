// O03: the logger, over all call sequences up to a depth, against a reference log.
#include "gcp_util.h"
#include <gCP/utilities.h>
using namespace vp;
using L = gCP::Utilities::Logger;

struct Ref
{
  std::vector<std::string> order;
  std::map<std::string, std::pair<double, int>> v;
  std::vector<std::string> lines; // expected content, whitespace normalised
};
static std::string norm(const std::string &l)
{
  std::istringstream is(l);
  std::string t, r;
  while (is >> t) r += (r.empty() ? "" : " ") + t;
  return r;
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  const char *names[] = {"N-Itr", "(R)_L2", "C", "a-rather-long-column-name"};
  const double values[] = {0.0, 3.0, -2.5, 1e-9, 123456.75, -4.0, 6e9, 1.0};
  // operations: 0..3 declare name with a format (the format rotates), 4..7 update name, 8 row, 9 header break, 10 free text
  const int depth = ex.quick ? 5 : 6, nop = 11;
  for (int f0 = 0; f0 < 3; ++f0)
    for (int o1 = 0; o1 < nop; ++o1)
      for (int o2 = 0; o2 < nop; ++o2)
        {
          const std::string key = "format0=" + std::to_string(f0) + ";ops=" + std::to_string(o1) + "," + std::to_string(o2);
          if (!ex.begin(key)) continue;
          std::vector<int> rest(depth - 2, 0);
          do
            {
              std::vector<int> ops = {o1, o2};
              ops.insert(ops.end(), rest.begin(), rest.end());
              const std::string file = ex.workdir + "/log";
              Ref r;
              std::string path;
              {
                L log(file);
                int step = 0;
                for (int o : ops)
                  {
                    ++step;
                    ex.transition();
                    bool threw = false;
                    if (o < 4)
                      {
                        const int fm = (f0 + o) % 3;
                        path += std::string(" declare(") + names[o] + ")";
                        try { log.declare_column(names[o], (L::Format)fm); } catch (std::exception &) { threw = true; }
                        const bool dup = r.v.count(names[o]);
                        ex.check(threw == dup, "declare", std::string(dup ? "a column declared twice is accepted" : "a new column is rejected") + " after" + path);
                        if (!dup) { r.order.push_back(names[o]); r.v[names[o]] = {0.0, fm}; }
                      }
                    else if (o < 8)
                      {
                        const double val = values[(step * 3 + o) % 8];
                        path += std::string(" update(") + names[o - 4] + "," + shortnum(val) + ")";
                        try { log.update_value(names[o - 4], val); } catch (std::exception &) { threw = true; }
                        const bool known = r.v.count(names[o - 4]);
                        ex.check(threw == !known, "update", std::string(known ? "an update of a declared column is rejected" : "a value of an undeclared column is accepted") + " after" + path);
                        if (known) r.v[names[o - 4]].first = val;
                      }
                    else if (o == 8)
                      {
                        path += " row";
                        log.log_to_file();
                        std::string l;
                        for (auto &k : r.order)
                          {
                            char b[64];
                            const auto &e = r.v[k];
                            if (e.second == 0) snprintf(b, 64, "%lld", (long long)e.first);
                            else snprintf(b, 64, e.second == 1 ? "%.6f" : "%.6e", e.first);
                            l += (l.empty() ? "" : " ") + std::string(b);
                          }
                        r.lines.push_back(l);
                      }
                    else if (o == 9)
                      {
                        path += " header";
                        log.add_break("break" + std::to_string(step));
                        r.lines.push_back("break" + std::to_string(step));
                        std::string l;
                        for (auto &k : r.order) l += (l.empty() ? "" : " ") + k;
                        r.lines.push_back(l);
                      }
                    else
                      {
                        path += " text";
                        std::ostringstream sink;
                        auto *old = std::cout.rdbuf(sink.rdbuf());
                        log.log_to_all("text" + std::to_string(step));
                        std::cout.rdbuf(old);
                        r.lines.push_back("text" + std::to_string(step));
                        ex.check(norm(sink.str()) == r.lines.back(), "terminal", "the message is not shown on the terminal");
                      }
                  }
                // terminal view of the final state
                std::ostringstream sink;
                auto *old = std::cout.rdbuf(sink.rdbuf());
                log.log_headers_to_terminal();
                log.log_values_to_terminal();
                std::cout.rdbuf(old);
                std::string h, v;
                for (auto &k : r.order)
                  {
                    char b[64];
                    const auto &e = r.v[k];
                    if (e.second == 0) snprintf(b, 64, "%lld", (long long)e.first);
                    else snprintf(b, 64, e.second == 1 ? "%.2f" : "%.2e", e.first);
                    h += (h.empty() ? "" : " ") + k;
                    v += (v.empty() ? "" : " ") + std::string(b);
                  }
                std::istringstream is(sink.str());
                std::string a, b;
                std::getline(is, a);
                std::getline(is, b);
                ex.check(norm(a) == h && norm(b) == v, "terminal", "terminal view of the columns after" + path + ": " + sink.str());
              }
              // content of the file, blank lines removed
              std::ifstream in(file);
              std::vector<std::string> got, want;
              std::string l;
              while (std::getline(in, l)) if (!norm(l).empty()) got.push_back(norm(l));
              for (auto &x : r.lines) if (!x.empty()) want.push_back(x);
              std::string g, w2;
              for (auto &x : got) g += x + "\n";
              for (auto &x : want) w2 += x + "\n";
              ex.check(g == w2, "content", "after" + path + " the file holds:\n" + g + "expected:\n" + w2);
              ex.state(w2);
              ex.trace();
            }
          while (next(rest, std::vector<int>(depth - 2, nop)));
          ex.sample(key + " and every continuation up to depth " + std::to_string(depth));
          ex.end();
        }
  return ex.finish();
}
