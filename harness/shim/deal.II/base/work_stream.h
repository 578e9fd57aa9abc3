// Replaces deal.II's WorkStream by a controlled scheduler (check S04).  Semantics modelled: workers run in any
// order, each with any scratch object that no other running task holds and with the copy object of its slot; copiers
// run one at a time in the order of the iterators; a copy slot is reused only after its copier ran.
#ifndef dealii_work_stream_h
#define WorkStream WorkStreamOriginal
#include_next <deal.II/base/work_stream.h>
#undef WorkStream
#include <atomic>
#include <exception>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

namespace vp_shim
{
struct Control
{
  enum Mode { sequential, planned, threads } mode = sequential;
  std::vector<int> events;     // e >= 0: worker of task e, ~e: copier of task e
  std::vector<int> scratch;    // scratch object of every task
  int n_scratch = 1, n_copy = 1;
  unsigned long runs = 0, planned_runs = 0, tasks = 0;
};
inline Control control;
} // namespace vp_shim

namespace dealii
{
  namespace WorkStream
  {
    template <typename Worker, typename Copier, typename Iterator, typename ScratchData, typename CopyData>
    void run(const Iterator &begin, const typename identity<Iterator>::type &end, Worker worker, Copier copier,
             const ScratchData &sample_scratch, const CopyData &sample_copy, const unsigned int = 1, const unsigned int = 1)
    {
      std::vector<Iterator> its;
      for (Iterator i = begin; i != end; ++i) its.push_back(i);
      auto &c = vp_shim::control;
      c.runs++;
      c.tasks += its.size();
      const int n = its.size();
      if (c.mode == vp_shim::Control::planned && (int)c.scratch.size() == n && (int)c.events.size() == 2 * n)
        {
          c.planned_runs++;
          std::vector<std::unique_ptr<ScratchData>> s;
          std::vector<std::unique_ptr<CopyData>> d;
          for (int i = 0; i < c.n_scratch; ++i) s.push_back(std::make_unique<ScratchData>(sample_scratch));
          for (int i = 0; i < c.n_copy; ++i) d.push_back(std::make_unique<CopyData>(sample_copy));
          for (int e : c.events)
            if (e >= 0) worker(its[e], *s[c.scratch[e]], *d[e % c.n_copy]);
            else copier(*d[~e % c.n_copy]);
        }
      else if (c.mode == vp_shim::Control::threads)
        {
          c.planned_runs++;
          std::vector<std::unique_ptr<ScratchData>> s;
          std::vector<std::unique_ptr<CopyData>> d;
          for (int i = 0; i < n; ++i) s.push_back(std::make_unique<ScratchData>(sample_scratch));
          for (int i = 0; i < n; ++i) d.push_back(std::make_unique<CopyData>(sample_copy));
          std::atomic<int> ready{0};
          std::vector<std::exception_ptr> err(n);
          std::vector<std::thread> t;
          for (int i = 0; i < n; ++i)
            t.emplace_back([&, i]() {
              ready.fetch_add(1, std::memory_order_relaxed);
              while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
              try { worker(its[i], *s[i], *d[i]); }
              catch (...) { err[i] = std::current_exception(); }
            });
          for (auto &x : t) x.join();
          for (auto &x : err) if (x) std::rethrow_exception(x);
          for (int i = 0; i < n; ++i) copier(*d[i]);
        }
      else
        for (int i = 0; i < n; ++i)
          {
            ScratchData s(sample_scratch);
            CopyData d(sample_copy);
            worker(its[i], s, d);
            copier(d);
          }
    }

    template <typename MainClass, typename Iterator, typename ScratchData, typename CopyData>
    void run(const Iterator &begin, const typename identity<Iterator>::type &end, MainClass &main,
             void (MainClass::*worker)(const Iterator &, ScratchData &, CopyData &),
             void (MainClass::*copier)(const CopyData &), const ScratchData &s, const CopyData &d,
             const unsigned int q = 1, const unsigned int k = 1)
    {
      run(begin, end, [&](const Iterator &i, ScratchData &a, CopyData &b) { (main.*worker)(i, a, b); },
          [&](const CopyData &b) { (main.*copier)(b); }, s, d, q, k);
    }

    template <typename Worker, typename Copier, typename Iterator, typename ScratchData, typename CopyData>
    void run(const IteratorRange<Iterator> &r, Worker worker, Copier copier, const ScratchData &s, const CopyData &d,
             const unsigned int q = 1, const unsigned int k = 1)
    {
      run(r.begin(), r.end(), worker, copier, s, d, q, k);
    }

    template <typename Worker, typename Copier, typename Iterator, typename ScratchData, typename CopyData>
    void run(const std::vector<std::vector<Iterator>> &colors, Worker worker, Copier copier, const ScratchData &s,
             const CopyData &d, const unsigned int q = 1, const unsigned int k = 1)
    {
      for (auto &v : colors)
        run(v.begin(), v.end(), [&](const typename std::vector<Iterator>::const_iterator &i, ScratchData &a, CopyData &b) { worker(*i, a, b); }, copier, s, d, q, k);
    }
  } // namespace WorkStream
} // namespace dealii
#endif
