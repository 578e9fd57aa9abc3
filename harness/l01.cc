// L01: the complete load-step sequence of every lattice programme, stepped
// exactly as the application does, against the programme in exact rationals.
#include "gcp_util.h"
#include <deal.II/base/discrete_time.h>
using namespace vp;

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  using namespace gCP::RunTimeParameters;
  std::vector<double> durations = {1., 0.3, 7., 1e-3}, periods = {1., 0.7, 40.}, starts = {0., 0.5, 100.};
  std::vector<int> nload = {1, 2, 3, 7, 20}, nq = {1, 2, 3, 5}, cycles = {0, 1, 2, 3};
  if (!ex.quick) { durations.push_back(1e3); periods.push_back(1e-2); nload.push_back(333); nq.push_back(7); nq.push_back(50); cycles.push_back(11); }
  for (int cyclic = 0; cyclic < 2; ++cyclic)
    for (double T0 : starts)
      for (double D : durations)
        for (int N : nload)
          for (double P : periods)
            for (int q : nq)
              for (int c : cycles)
                for (int skip = 0; skip < 2; ++skip)
                  {
                    if (!cyclic && (P != 1. || q != 1 || c != 1 || skip)) continue;
                    const std::string key = std::string(cyclic ? "cyclic" : "monotonic") + ";start=" + shortnum(T0) + ";duration=" + shortnum(D) + ";steps=" + std::to_string(N) + ";period=" + shortnum(P) + ";quarter=" + std::to_string(q) + ";cycles=" + std::to_string(c) + ";skipunloading=" + std::to_string(skip);
                    if (!ex.begin(key)) continue;
                    try
                      {
                        dealii::ParameterHandler prm;
                        SimpleLoading::declare_parameters(prm);
                        prm.parse_input_from_string(
                          "subsection 2. Temporal discretization parameters\n subsection Simple loading\n set Loading type = " + std::string(cyclic ? "cyclic" : "monotonic") +
                          "\n subsection Monotonic load parameters\n set Duration of monotonic load = " + num(cyclic ? 3. : D) + "\n set Number of steps during monotonic load = " + std::to_string(cyclic ? 4 : N) +
                          "\n end\n subsection Cyclic load parameters\n set Duration of un- and loading phase = " + num(cyclic ? D : 5.) + "\n set Number of steps during un- and loading phase = " + std::to_string(cyclic ? N : 6) +
                          "\n set Period = " + num(P) + "\n set Number of steps during a quarter cycle = " + std::to_string(q) + "\n set Number of cycles = " + std::to_string(c) + "\n set Skip unloading phase = " + (skip ? "true" : "false") +
                          "\n end\n end\nend\n");
                        SimpleLoading l;
                        l.start_time = T0;
                        l.parse_parameters(prm);
                        // programme: list of (time, is reversal)
                        std::vector<std::pair<long double, bool>> plan;
                        long double t = T0;
                        for (int i = 1; i <= N; ++i) plan.push_back({T0 + (long double)D * i / N, cyclic && i == N && (c > 0 || !skip)});
                        t = T0 + (long double)D;
                        if (cyclic)
                          {
                            for (int i = 1; i <= 4 * q * c; ++i)
                              {
                                const int ph = i % (4 * q);
                                plan.push_back({t + (long double)P * i / (4 * q), ph == q || ph == 3 * q || (i == 4 * q * c && !skip)});
                              }
                            t += (long double)P * c;
                            if (!skip)
                              for (int i = 1; i <= N; ++i) plan.push_back({t + (long double)D * i / N, false});
                          }
                        // dealii::DiscreteTime enlarges a step that would end closer than 5 % of
                        // its size to the end time (known finding)
                        const bool tiny = cyclic && c > 0 && !skip && D < 0.05 * P / (4 * q);
                        const std::string pre = tiny ? "short-final-phase-" : "";
                        const double span = (double)(plan.back().first - T0);
                        ex.close(l.end_time, plan.back().first, std::abs((double)plan.back().first), 1e-14, "end-time", "end time");
                        dealii::DiscreteTime time(l.start_time, l.end_time, l.time_step_size);
                        unsigned step = 0;
                        ex.check(!l.skip_extrapolation(0), "extrapolation", "skipped before the first step");
                        bool stop = false;
                        while (!stop && time.get_current_time() < time.get_end_time())
                          {
                            ex.transition();
                            const double dt = l.get_next_time_step_size(time.get_step_number());
                            if (!ex.check(dt > 0. && std::isfinite(dt), "positive", "step size " + num(dt) + " at step " + std::to_string(step))) break;
                            time.set_desired_next_step_size(dt);
                            time.advance_time();
                            if (!ex.check(step < plan.size(), "too-many", "more steps than configured (" + std::to_string(plan.size()) + ")")) { stop = true; break; }
                            ex.close(time.get_current_time(), plan[step].first, std::max(std::abs((double)plan[step].first), span), 1e-11, pre + "instant", "time after step " + std::to_string(step + 1));
                            ++step;
                            if (step < plan.size())
                              ex.check(l.skip_extrapolation(step) == plan[step - 1].second, "extrapolation", "start-value extrapolation " + std::string(plan[step - 1].second ? "not " : "") + "skipped after step " + std::to_string(step));
                          }
                        ex.check(step == plan.size(), pre + "number", std::to_string(step) + " steps instead of " + std::to_string(plan.size()));
                        ex.check(time.get_current_time() == l.end_time, "end", "the programme does not end at the end time");
                        ex.check(time.get_step_number() == step, "counter", "step number");
                        if (cyclic)
                          {
                            ex.close(l.start_of_cyclic_phase, T0 + (long double)D, std::abs(T0) + D, 1e-14, "phase", "start of the cyclic phase");
                            ex.close(l.start_of_unloading_phase, T0 + (long double)D + (long double)P * c, std::abs(T0) + D + P * c, 1e-14, "phase", "start of the unloading phase");
                          }
                      }
                    catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
                    ex.state(key);
                    ex.trace();
                    ex.sample(key);
                    ex.end();
                  }
  return ex.finish();
}
