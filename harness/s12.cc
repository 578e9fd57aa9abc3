// S12: every load step ends within its limits, the limits do not influence what they do not cut off, and the
// solver's own report (log and statistics) says what happened.
#include "solver_options.h"
#include <streambuf>
using namespace vp;
using Algo = RTP::SolutionAlgorithm;

// Everything the solver prints goes here; more lines than any bounded run prints end the run.
struct Endless : std::exception { const char *what() const noexcept override { return "ENDLESS: the step does not end"; } };
struct Watch : std::streambuf
{
  long lines = 0, limit = 20000;
  bool armed = false;
  int overflow(int c) override
  {
    if (c == '\n' && ++lines > limit && armed) throw Endless();
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override
  {
    for (std::streamsize i = 0; i < n; ++i) overflow((unsigned char)s[i]);
    return n;
  }
} watch;

struct LogRow { long n, k, l; double ns, nsu, nsg, r, ru, rg, rate; };
struct Section { bool macro; std::vector<LogRow> rows; };
struct StepLog { std::vector<Section> sections; std::string bad; int loops = 0, micro_loops = 0; };

// The log of one run, split into steps; a section is a row 0 and the iterations that follow it
std::vector<StepLog> read_log(const std::string &file, Algo algo)
{
  std::vector<StepLog> steps;
  std::ifstream f(file);
  std::string line;
  bool macro = true;
  Section *mac = nullptr;
  while (std::getline(f, line))
    {
      if (line.rfind("Step ", 0) == 0) { steps.emplace_back(); macro = true; mac = nullptr; continue; }
      if (steps.empty()) continue;
      StepLog &s = steps.back();
      if (line.find("Linear momentum balance: Starting") != std::string::npos) { macro = true; s.loops++; continue; }
      if (line.find("Pseudo-balance: Starting") != std::string::npos) { macro = false; s.micro_loops++; continue; }
      if (line.find("Microloop") != std::string::npos) { macro = false; s.micro_loops++; continue; }
      if (algo == Algo::Embracing && line.find("converges!") != std::string::npos) { macro = true; continue; }
      std::istringstream in(line);
      std::vector<std::string> w;
      for (std::string x; in >> x;) w.push_back(x);
      if (w.empty() || !(isdigit(w[0][0]) || w[0][0] == '-')) continue;
      if (w.size() != 10) { s.bad = "row with " + std::to_string(w.size()) + " entries: " + line; continue; }
      double v[10];
      for (int i = 0; i < 10; ++i)
        {
          v[i] = strtod(w[i].c_str(), nullptr);
          if (!std::isfinite(v[i])) s.bad = "not a number: " + line;
        }
      LogRow r{(long)v[0], (long)v[1], (long)v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]};
      if (r.n == 0) s.sections.push_back({macro, {}});
      else if (algo == Algo::Embracing && macro && r.n > 1) s.sections.push_back({macro, {}});
      if (s.sections.empty()) { s.bad = "the first row has number " + std::to_string(r.n); continue; }
      s.sections.back().rows.push_back(r);
      (void)mac;
    }
  return steps;
}

struct Outcome
{
  std::vector<std::vector<double>> sol;
  std::vector<StepLog> log;
  std::string error, table;
  std::vector<std::array<double, 2>> res; // norms of the independent residual
  bool plain = true;                      // every constrained unknown is fixed
  long lines = 0;
};

template <int dim>
Outcome simulate(const std::string &dir, const Cfg &c, const std::vector<StepSym> &h, bool residuals)
{
  Outcome o;
  {
    Problem<dim> p(c, dir);
    for (auto &x : h)
      {
        watch.lines = 0;
        watch.armed = true;
        const bool ok = p.step(x.inc * c.amp, x.dt);
        watch.armed = false;
        std::cout.clear();
        o.lines = std::max(o.lines, watch.lines);
        if (!ok) { o.error = p.error.empty() ? "?" : p.error; break; }
        const auto s = p.values(p.field->solution);
        o.sol.push_back(s);
        if (residuals)
          {
            const auto F = p.residual(s, p.time->get_next_time());
            dealii::AffineConstraints<double> a;
            a.copy_from(p.field->get_newton_method_constraints());
            double u = 0, g = 0;
            std::vector<bool> slip(F.size(), false);
            std::vector<dealii::types::global_dof_index> idx;
            for (auto &cell : p.field->get_dof_handler().active_cell_iterators())
              {
                idx.resize(cell->get_fe().n_dofs_per_cell());
                cell->get_dof_indices(idx);
                for (unsigned i = 0; i < idx.size(); ++i) slip[idx[i]] = p.local_component(cell->get_fe().system_to_component_index(i).first, cell->material_id()) >= dim;
              }
            for (unsigned i = 0; i < F.size(); ++i)
              if (!a.is_constrained(i)) (slip[i] ? g : u) += F[i] * F[i];
            o.res.push_back({std::sqrt(u), std::sqrt(g)});
          }
        p.accept();
      }
    std::ostringstream t;
    p.solver->output_data_to_file(t);
    o.table = t.str();
  }
  o.log = read_log(dir + "/nonlinear_solver_log.txt", c.algo);
  return o;
}

std::vector<std::map<std::string, std::string>> rows_of(const std::string &t)
{
  std::vector<std::map<std::string, std::string>> r;
  std::vector<std::string> head;
  std::istringstream in(t);
  for (std::string line; std::getline(in, line);)
    {
      std::vector<std::string> w;
      std::istringstream l(line);
      for (std::string x; l >> x;) if (x != "|") w.push_back(x);
      if (head.empty()) { head = w; continue; }
      std::map<std::string, std::string> m;
      for (unsigned i = 0; i < w.size() && i < head.size(); ++i) m[head[i]] = w[i];
      if (w.size() != head.size()) m["?"] = line;
      if (!w.empty()) r.push_back(m);
    }
  return r;
}

const char *not_converged = "MaxIter";

template <int dim>
void run(Explorer &ex, const std::string &name, const Cfg &c, const std::vector<StepSym> &h)
{
  const std::string key = "dim=" + std::to_string(dim) + ";options=" + name + ";history=" + hist_str(h);
  if (!ex.begin(key)) return;
  try
    {
      const bool coarse = c.tol > 1e-6, ties = c.periodic;
      const Outcome o = simulate<dim>(ex.workdir, c, h, coarse && !ties);
      ex.note_max("lines_printed_in_a_step", o.lines);
      ex.check(o.error.find("ENDLESS") == std::string::npos, "endless", "step " + std::to_string(o.sol.size() + 1) + " did not end after " + std::to_string(watch.limit) + " lines of output");
      if (!o.error.empty() && o.error.find("ENDLESS") == std::string::npos)
        ex.check(o.error.find(not_converged) != std::string::npos, "exception", "step " + std::to_string(o.sol.size() + 1) + ": " + o.error);
      ex.note(o.error.empty() ? "histories_converged" : "histories_cut_off", 1);
      ex.check(o.log.size() == o.sol.size() + !o.error.empty(), "log-steps", "the log has " + std::to_string(o.log.size()) + " steps, the run " + std::to_string(o.sol.size()));
      const auto table = rows_of(o.table);
      ex.check(table.size() == o.sol.size(), "table-steps", "the statistics have " + std::to_string(table.size()) + " rows after " + std::to_string(o.sol.size()) + " accepted steps");
      long need = 0, loops = 0, restarts = 0;
      for (unsigned k = 0; k < o.log.size(); ++k)
        {
          const StepLog &s = o.log[k];
          const std::string w = "step " + std::to_string(k + 1) + ": ";
          const bool done = k < o.sol.size();
          ex.check(s.bad.empty(), "log-row", w + s.bad);
          ex.check(!s.sections.empty() || !done, "log-row", w + "no rows");
          if (s.sections.empty()) continue;
          long expect = 0, macro_rows = 0, micro_sections = 0, zero_rows = 0;
          double macro_sum = 0, macro_reduced = 0, micro_sum = 0, mono_sum = 0, bounce_sum = 0;
          for (unsigned q = 0; q < s.sections.size(); ++q)
            {
              const Section &x = s.sections[q];
              const bool last = q + 1 == s.sections.size();
              if (c.algo == Algo::Embracing && x.macro)
                {
                  // row 0 at the start, row 1, then one row per section, and a row 0 at the end
                  const bool closing = done && last;
                  for (auto &r : x.rows)
                    {
                      if (r.n == 0 && (q == 0 || closing)) continue;
                      ex.check(r.n == ++expect, "log-number", w + "row " + std::to_string(r.n) + " of the momentum balance, expected " + std::to_string(expect));
                      macro_rows++;
                      macro_sum += r.rate;
                      if (r.n > 1) macro_reduced += r.rate;
                    }
                }
              else
                {
                  double sum = 0;
                  for (unsigned i = 0; i < x.rows.size(); ++i)
                    {
                      ex.check(x.rows[i].n == (long)i, "log-number", w + "row " + std::to_string(x.rows[i].n) + " where " + std::to_string(i) + " is due");
                      sum += x.rows[i].rate;
                    }
                  const long n = (long)x.rows.size() - 1;
                  if (x.macro) zero_rows++;
                  if (c.algo == Algo::Monolithic) mono_sum = sum / std::max(n, 1l);
                  else if (x.macro) bounce_sum += n > 0 ? sum / n : 0;
                  else { micro_sections++; micro_sum += n > 0 ? sum / n : 0; }
                }
              for (auto &r : x.rows)
                {
                  need = std::max(need, r.n);
                  ex.check(r.n <= c.newton_max, "more-than-limit", w + "iteration " + std::to_string(r.n) + " with a limit of " + std::to_string(c.newton_max));
                  ex.close(r.r, std::hypot(r.ru, r.rg), r.r, 2e-6, "log-norm", w + "residual of row " + std::to_string(r.n));
                  ex.close(r.ns, std::hypot(r.nsu, r.nsg), std::max(r.ns, 1e-90), 2e-6, "log-norm", w + "update of row " + std::to_string(r.n));
                  if (!c.line_search) ex.check(r.l == 0, "log-line-search", w + "line search iterations without line search");
                  if (c.krylov != RTP::SolverType::DirectSolver && r.n > 0 && r.ns > 0) ex.check(r.k > 0 && r.k <= 2000, "log-krylov", w + std::to_string(r.k) + " Krylov iterations");
                }
              // the logged rate of convergence belongs to the logged residuals
              if (c.algo != Algo::Embracing)
                for (unsigned i = 1; i < x.rows.size(); ++i)
                  {
                    const double a = c.algo == Algo::Monolithic ? x.rows[i].r : x.macro ? x.rows[i].ru : x.rows[i].rg, b = c.algo == Algo::Monolithic ? x.rows[i - 1].r : x.macro ? x.rows[i - 1].ru : x.rows[i - 1].rg;
                    if (a > 0 && b > 0 && std::fabs(std::log(b)) > 1e-2) ex.close(x.rows[i].rate, std::log(a) / std::log(b), std::fabs(std::log(a) / std::log(b)) + 1, 1e-4, "log-rate", w + "rate of row " + std::to_string(i));
                  }
            }
          restarts = std::max(restarts, zero_rows - 1);
          loops = std::max(loops, (long)s.loops);
          if (!done) continue;
          const LogRow &e = s.sections.back().rows.back();
          if (c.algo == Algo::Monolithic) ex.check(e.r < c.tol * (1 + 1e-6), "log-end", w + "the last row has the residual " + num(e.r) + ", tolerance " + num(c.tol));
          else ex.check(e.ru < c.tol * (1 + 1e-6) && e.rg < c.tol * (1 + 1e-6), "log-end", w + "the last row has the residuals " + num(e.ru) + ", " + num(e.rg) + ", tolerance " + num(c.tol));
          if (k < o.res.size() && !c.rate_independent)
            {
              const double sc = std::max(1e-3 * c.tol, std::hypot(o.res[k][0], o.res[k][1]));
              ex.close(e.ru, o.res[k][0], sc, 1e-4, "log-residual", w + "residual of the momentum balance in the last row");
              ex.close(e.rg, o.res[k][1], sc, 1e-4, "log-residual", w + "residual of the pseudo-balance in the last row");
            }
          if (k < table.size())
            {
              auto m = table[k];
              auto val = [&](const char *n) { return m.count(n) ? strtod(m[n].c_str(), nullptr) : NAN; };
              for (auto &v : m) ex.check(std::isfinite(strtod(v.second.c_str(), nullptr)), "table-number", w + v.first + " of the statistics is " + v.second);
              ex.check(val("LoadStep") == k + 1, "table-step", w + "the statistics say step " + m["LoadStep"]);
              const long it = c.algo == Algo::Monolithic ? (long)s.sections.back().rows.size() - 1 : c.algo == Algo::Bouncing ? s.micro_loops : macro_rows;
              ex.check(val("Iterations") == it, "table-iterations", w + "the statistics say " + m["Iterations"] + " iterations, the log " + std::to_string(it));
              auto avg = [&](const char *n, double x) { if (m.count(n) && std::isfinite(val(n))) ex.check(std::fabs(val(n) - x) <= 0.0051 + 1e-3 * std::fabs(x), "table-average", w + n + " of the statistics is " + m[n] + ", of the log " + num(x)); };
              avg("MonoAverageConvergence", c.algo == Algo::Monolithic ? mono_sum : 0);
              avg("MacroAverageConvergence", c.algo == Algo::Embracing ? macro_sum / macro_rows : c.algo == Algo::Bouncing ? bounce_sum / s.micro_loops : 0);
              avg("ReducedMacroAverageConvergence", c.algo == Algo::Embracing && macro_rows > 1 ? macro_reduced / (macro_rows - 1) : 0);
              avg("MicroAverageConvergence", c.algo == Algo::Monolithic ? 0 : micro_sum / std::max(1l, micro_sections));
            }
          ex.transition();
        }
      ex.state(name + hist_str(h) + std::to_string(dim) + num(need) + num(loops));
      // the limits met exactly, and missed by one
      auto again = [&](const char *what, Cfg d, bool enough, bool must_fail) {
        const Outcome r = simulate<dim>(ex.workdir, d, h, false);
        const std::string w = std::string(what) + ": ";
        if (enough)
          {
            ex.check(r.error.empty(), "limit-met", w + "step " + std::to_string(r.sol.size() + 1) + " fails: " + r.error.substr(0, 200));
            ex.check(!r.error.empty() || r.sol == o.sol, "limit-changes-result", w + "another solution");
          }
        else
          {
            if (must_fail) ex.check(!r.error.empty(), "limit-ignored", w + "every step was accepted");
            if (!r.error.empty()) ex.check(r.error.find(not_converged) != std::string::npos, "exception", w + r.error.substr(0, 300));
            for (unsigned k = 0; k < r.sol.size(); ++k) ex.check(r.sol[k] == o.sol[k], "limit-changes-result", w + "another solution of step " + std::to_string(k + 1));
          }
        ex.note("limits_tried", 1);
        ex.transition();
      };
      if (o.error.empty() && need > 0)
        {
          Cfg d = c;
          d.newton_max = need;
          const bool mono_ri = c.rate_independent && c.algo == Algo::Monolithic && restarts > 0;
          if (!mono_ri) again("limit of the iterations as needed", d, true, false);
          d.newton_max = need - 1;
          again("limit of the iterations one less than needed", d, false, !mono_ri);
          if (loops > 1)
            {
              d = c;
              d.loops_max = loops;
              again("limit of the loops as needed", d, true, false);
              d.loops_max = loops - 1;
              again("limit of the loops one less than needed", d, false, true);
            }
        }
    }
  catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
  ex.trace();
  ex.sample(key);
  ex.end();
}

int main(int argc, char **argv)
{
  Init init(argc, argv);
  Explorer ex(argc, argv);
  std::cout.rdbuf(&watch);
  std::cout.exceptions(std::ios::badbit);
  const std::vector<StepSym> full = {{1, 1}, {-2, 0.5}, {0, 2}, {6, 1}}, hard = {{5, 1}, {-7, 0.5}, {0, 2}};
  auto all = [&](auto tag) {
    constexpr int dim = decltype(tag)::value;
    // base settings: precise; coarse, with residuals large enough to be compared; rate-independent
    for (int kind : {0, 1, 2})
      {
        Cfg b;
        b.newton_max = 25;
        b.loops_max = 90;
        if (kind == 1) b.tol = 2e-4;
        if (kind == 2) b.rate_independent = true;
        for_each_config(dim, dim == 2 ? (ex.quick ? 2 : 3) : (ex.quick ? 1 : 2), [&](const std::string &n, const Cfg &c, int d) {
          const bool deep = dim == 2 ? d <= 1 : d == 0;
          const int depth = ex.quick ? (deep ? 2 : 1) : (deep ? 3 : 2);
          for (auto &h : histories(kind == 2 ? hard : full, kind == 2 && ex.quick && !deep ? 2 : depth)) run<dim>(ex, std::string(kind == 0 ? "precise:" : kind == 1 ? "coarse:" : "rate-independent:") + n, c, h);
        }, [&](const Opt &o) { return o.group != "rate" && o.group != "reg" && !(kind == 2 && (o.group == "gb" || o.group == "krylov" || o.group == "couple" || o.group == "damage" || o.name == "ns3")); }, b);
      }
  };
  all(std::integral_constant<int, 2>());
  all(std::integral_constant<int, 3>());
  return ex.finish();
}
