// S04: load steps under every order of the cell tasks, every assignment of scratch objects and every admissible
// overlap of copy objects (interposed WorkStream), compared with the sequential execution on fresh scratch objects.
//  --mode tsan: all tasks of every loop run in their own thread; ThreadSanitizer's happens-before analysis judges
//  every pair of accesses (tasks of one loop are unordered, so one execution stands for every schedule).
#include <deal.II/base/work_stream.h>
#include "solver_options.h"
using namespace vp;
using vp_shim::control;

template <int dim>
std::vector<double> state_of(Problem<dim> &p)
{
  auto r = p.values(p.field->solution);
  for (auto &cell : p.field->get_dof_handler().active_cell_iterators())
    {
      for (auto &x : p.solver->quadrature_point_history.get_data(cell))
        for (double g : x->get_slip_resistances()) r.push_back(g);
      if (!p.c.dec) continue;
      for (unsigned f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; ++f)
        {
          if (cell->at_boundary(f) || cell->neighbor(f)->material_id() == cell->material_id()) continue;
          for (auto &x : p.solver->interface_quadrature_point_history.get_data(cell->id(), cell->neighbor(f)->id()))
            {
              r.push_back(x->get_max_effective_opening_displacement());
              r.push_back(x->get_effective_opening_displacement());
              r.push_back(x->get_effective_cohesive_traction());
              r.push_back(x->get_damage_variable());
            }
        }
    }
  return r;
}

struct Plan { std::vector<int> events, scratch; int n_scratch, n_copy; std::string name; };

// every interleaving of W_0..W_{n-1} (any order) and C_0..C_{n-1} (in order, C_i after W_i, copy slots not overlapping)
void interleavings(int n, int slots, std::vector<int> &ev, unsigned done_w, int done_c, const std::function<void()> &cb)
{
  if ((int)ev.size() == 2 * n) { cb(); return; }
  if (done_c < n && (done_w >> done_c & 1))
    {
      ev.push_back(~done_c);
      interleavings(n, slots, ev, done_w, done_c + 1, cb);
      ev.pop_back();
    }
  for (int i = 0; i < n; ++i)
    if (!(done_w >> i & 1) && i - slots < done_c)
      {
        ev.push_back(i);
        interleavings(n, slots, ev, done_w | 1u << i, done_c, cb);
        ev.pop_back();
      }
}
std::vector<Plan> plans(int n, int max_scratch, bool all_slots)
{
  std::vector<Plan> r;
  for (int slots : {1, 2, n})
    {
      if (slots > n || (slots == n && n <= 2 && slots != 2)) continue;
      if (!all_slots && slots != n) continue;
      for (int ns = 1; ns <= std::min(n, max_scratch); ++ns)
        {
          std::vector<int> s(n, 0);
          do
            {
              int used = 0;
              bool canon = true; // scratch objects are interchangeable: first uses in increasing order
              for (int x : s) { if (x > used) canon = false; used = std::max(used, x + 1); }
              if (!canon || used != ns) continue;
              std::vector<int> ev;
              interleavings(n, slots, ev, 0, 0, [&]() {
                Plan p{ev, s, ns, slots, ""};
                p.name = "slots=" + std::to_string(slots) + ",scratch=";
                for (int x : s) p.name += std::to_string(x);
                p.name += ",events=";
                for (int e : ev) p.name += (e >= 0 ? "w" : "c") + std::to_string(e >= 0 ? e : ~e);
                r.push_back(p);
              });
            }
          while (next(s, std::vector<int>(n, ns)));
        }
    }
  return r;
}

// canonical only with respect to the order of execution matters; labels are by task index, which covers every
// assignment because every order of the workers is enumerated.
template <int dim>
void run(Explorer &ex, const std::string &name, Cfg c, const std::vector<StepSym> &h, bool tsan, int max_scratch, bool all_slots, size_t limit)
{
  const std::string key = "dim=" + std::to_string(dim) + ";options=" + name + ";history=" + hist_str(h) + ";scratch=" + std::to_string(max_scratch) + ";slots=" + std::to_string(all_slots);
  if (!ex.begin(key)) return;
  c.tol = 1e-10;
  auto solve = [&](std::vector<std::vector<double>> &out) {
    Problem<dim> p(c, ex.workdir);
    control.runs = control.planned_runs = 0;
    for (auto &x : h)
      {
        if (!p.step(x.inc * c.amp, x.dt)) { out.push_back({}); return; }
        out.push_back(state_of(p));
        p.trial = p.ref;
        p.accept();
      }
  };
  try
    {
      control.mode = vp_shim::Control::sequential;
      std::vector<std::vector<double>> ref;
      solve(ref);
      ex.note("loops_per_history", control.runs);
      if (tsan)
        {
          control.mode = vp_shim::Control::threads;
          std::vector<std::vector<double>> got;
          solve(got);
          ex.check(control.planned_runs > 0, "no-loop", "no parallel loop was executed");
          ex.transition();
        }
      else
        {
          const auto ps = plans(c.mats.size(), max_scratch, all_slots);
          size_t k = 0;
          for (auto &pl : ps)
            {
              if (k++ >= limit) break;
              control.mode = vp_shim::Control::planned;
              control.events = pl.events;
              control.scratch = pl.scratch;
              control.n_scratch = pl.n_scratch;
              control.n_copy = pl.n_copy;
              std::vector<std::vector<double>> got;
              solve(got);
              ex.check(control.planned_runs > 0, "no-loop", "no parallel loop was executed");
              bool ok = got.size() == ref.size();
              double d = 0;
              for (size_t i = 0; ok && i < ref.size(); ++i)
                {
                  ok = got[i].size() == ref[i].size();
                  for (size_t j = 0; ok && j < ref[i].size(); ++j)
                    if (std::isfinite(ref[i][j]) || std::isfinite(got[i][j]))
                      {
                        const double e = std::abs(got[i][j] - ref[i][j]);
                        if (!(e <= d)) d = std::isnan(e) ? 1e300 : e;
                      }
                }
              ex.note_max("largest_difference", d);
              if (!ex.check(ok && d <= 1e-8, "schedule", pl.name + ": the result differs from the sequential one by " + num(d))) break;
              ex.transition();
              ex.trace();
              ex.state(key + pl.name);
            }
        }
    }
  catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
  control.mode = vp_shim::Control::sequential;
  ex.sample(key);
  ex.end();
}

int main(int argc, char **argv)
{
  Init init(argc, argv);
  Explorer ex(argc, argv);
  bool tsan = false;
  for (int i = 1; i + 1 < argc; ++i)
    if (std::string(argv[i]) == "--mode") tsan = std::string(argv[i + 1]) == "tsan";
  if (!getenv("VP_LOUD")) std::cout.setstate(std::ios::failbit);
  const std::set<std::string> numerical = {"krylov", "extra", "reset", "reg"};
  auto use = [&](const Opt &o) { return !numerical.count(o.group); };
  const std::vector<StepSym> h = {{1, 1}, {-1.5, 0.5}};
  auto all = [&](auto tag) {
    constexpr int dim = decltype(tag)::value;
    for (auto &b : bases(dim))
      for_each_config(dim, ex.quick || tsan ? (dim == 2 ? 1 : 0) : (dim == 2 ? 2 : 1), [&](const std::string &n, const Cfg &c, int d) {
        Cfg k = c;
        k.newton_max = 25;
        if (tsan)
          {
            k.newton_max = 3;
            run<dim>(ex, b.name + n, k, ex.quick ? std::vector<StepSym>{h[0]} : h, true, 1, false, 1);
            return;
          }
        const bool slow = c.algo == RTP::SolutionAlgorithm::Embracing;
        const int cells = c.mats.size();
        if (slow && ex.quick && cells > 2) return;
        if (cells > (dim == 2 ? 4 : 3)) return; // factorially many orders
        const bool deep = cells <= 3 && !slow;
        run<dim>(ex, b.name + n, k, ex.quick ? std::vector<StepSym>{h[0]} : h, false, ex.quick ? (deep ? 2 : 1) : (deep ? 3 : 2), deep, 1000000);
      }, use, b.c);
  };
  all(std::integral_constant<int, 2>());
  all(std::integral_constant<int, 3>());
  return ex.finish();
}
