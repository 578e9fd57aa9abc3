// Common explorer for all harnesses: case enumeration with sharding and
// replay, violation recording, state/transition counting, JSON result.
#pragma once
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace vp
{
inline std::string jesc(const std::string &s)
{
  std::string r = "\"";
  for (unsigned char c : s)
    {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c == '\n') r += "\\n";
      else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += c;
    }
  return r + "\"";
}

inline std::string num(double v)
{
  char b[40];
  snprintf(b, 40, "%.17g", v);
  return b;
}
inline std::string shortnum(double v)
{
  char b[40];
  snprintf(b, 40, "%g", v);
  return b;
}

struct Violation { std::string sig, key, what; };

class Explorer
{
public:
  bool quick = true;
  long seed = 1;
  std::string workdir = ".";

  Explorer(int argc, char **argv)
  {
    for (int i = 1; i + 1 < argc; ++i)
      {
        const std::string a = argv[i];
        if (a == "--tier") quick = std::string(argv[i + 1]) != "thorough";
        if (a == "--seed") seed = atol(argv[i + 1]);
        if (a == "--out") out = argv[i + 1];
        if (a == "--crumb") crumb_file = argv[i + 1];
        if (a == "--only") { only = argv[i + 1]; has_only = true; }
        if (a == "--workdir") workdir = argv[i + 1];
        if (a == "--alarm") alarm_s = atoi(argv[i + 1]);
        if (a == "--shard") sscanf(argv[i + 1], "%d/%d", &shard, &nshards);
        if (a == "--deadline") deadline = atof(argv[i + 1]);
      }
    t0 = now();
    if (!crumb_file.empty())
      {
        int fd = ::open(crumb_file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0)
          crumb = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (crumb == MAP_FAILED) crumb = nullptr;
        if (fd >= 0) ::close(fd);
      }
  }

  // Start of one case (a point of the enumerated space). False: not ours.
  bool begin(const std::string &key)
  {
    if (has_only)
      { if (key != only) return false; }
    else if (nshards > 1 && (int)(counter++ % nshards) != shard)
      return false;
    if (deadline > 0 && now() - t0 > deadline && !has_only)
      { capped++; return false; }
    current = key;
    evaluations++;
    if (crumb) { strncpy(crumb, key.c_str(), 4000); crumb[4000] = 0; }
    if (alarm_s) alarm(alarm_s);
    case_t0 = now();
    return true;
  }
  void end()
  {
    if (alarm_s) alarm(0);
    if (getenv("VP_SLOW") && now() - case_t0 > atof(getenv("VP_SLOW"))) fprintf(stderr, "SLOW %.2f %s\n", now() - case_t0, current.c_str());
  }

  void fail(const std::string &sig, const std::string &what)
  {
    n_violations++;
    auto &c = per_sig[sig];
    if (c++ < 3)
      violations.push_back({sig, current, what});
  }
  bool check(bool ok, const std::string &sig, const std::string &what)
  {
    checks++;
    if (!ok) fail(sig, what);
    return ok;
  }
  // relative closeness with an absolute floor
  bool close(double a, double b, double scale, double tol, const std::string &sig, const std::string &what)
  {
    checks++;
    const double s = std::max(std::abs(scale), 1e-300);
    if (std::isfinite(a) && std::isfinite(b) && std::abs(a - b) <= tol * s) return true;
    fail(sig, what + ": got " + num(a) + ", expected " + num(b) + " (scale " + num(scale) + ")");
    return false;
  }
  // distinct observed outcome / state
  void state(const std::string &canon) { states.insert(std::hash<std::string>()(canon + "\x01" + state_domain)); }
  bool new_state(const std::string &canon) { return states.insert(std::hash<std::string>()(canon + "\x01" + state_domain)).second; }
  void transition() { transitions++; }
  void trace() { traces++; }
  void sample(const std::string &s) { if (samples.size() < 6) samples.push_back(s); }
  void note(const std::string &k, double v) { notes[k] += v; }
  void note_max(const std::string &k, double v) { auto it = maxn.find(k); if (it == maxn.end() || it->second < v) maxn[k] = v; }
  const std::string &case_key() const { return current; }
  bool replaying() const { return has_only; }

  int finish()
  {
    end();
    if (out.empty()) out = "/dev/stdout";
    std::ofstream o(out);
    o << "{\"evaluations\":" << evaluations << ",\"checks\":" << checks << ",\"states\":" << states.size()
      << ",\"transitions\":" << transitions << ",\"traces\":" << traces << ",\"capped\":" << capped
      << ",\"n_violations\":" << n_violations << ",\"violations\":[";
    for (size_t i = 0; i < violations.size(); ++i)
      o << (i ? "," : "") << "{\"sig\":" << jesc(violations[i].sig) << ",\"key\":" << jesc(violations[i].key)
        << ",\"what\":" << jesc(violations[i].what) << "}";
    o << "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << jesc(samples[i]);
    o << "],\"notes\":{";
    bool f = true;
    for (auto &n : notes) { o << (f ? "" : ",") << jesc(n.first) << ":" << num(n.second); f = false; }
    o << "},\"max\":{";
    f = true;
    for (auto &n : maxn) { o << (f ? "" : ",") << jesc(n.first) << ":" << (std::isfinite(n.second) ? num(n.second) : "1e999"); f = false; }
    o << "}}\n";
    o.close();
    return 0;
  }
  std::string state_domain;
  static double now()
  {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
  }

private:
  std::string out, crumb_file, only, current;
  bool has_only = false;
  char *crumb = nullptr;
  int shard = 0, nshards = 1, alarm_s = 0;
  double deadline = 0, t0 = 0, case_t0 = 0;
  long counter = 0, evaluations = 0, checks = 0, transitions = 0, traces = 0, capped = 0, n_violations = 0;
  std::unordered_set<size_t> states;
  std::vector<Violation> violations;
  std::map<std::string, int> per_sig;
  std::vector<std::string> samples;
  std::map<std::string, double> notes, maxn;
};

// Mixed-radix odometer over finite domains.
inline bool next(std::vector<int> &idx, const std::vector<int> &sizes)
{
  for (int k = (int)idx.size() - 1; k >= 0; --k)
    {
      if (++idx[k] < sizes[k]) return true;
      idx[k] = 0;
    }
  return false;
}
} // namespace vp
