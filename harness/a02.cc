// A02: complete runs of the simple-shear application as a child process in a scratch directory; every file it leaves
// is compared with the load programme and the configured cadence, and with those of a second run.
#include "vp.h"
#include <array>
#include <filesystem>
#include <iomanip>
#include <sys/wait.h>
#include <zlib.h>
#define main gcp_application_main
#include "applications/simple_shear.cc"
#undef main
using namespace vp;
namespace fs = std::filesystem;
using Row = std::vector<double>;

static std::string line(const std::string &path, const std::string &name, const std::string &value)
{
  std::string s, e, p;
  std::istringstream in(path);
  while (std::getline(in, p, '/')) { s += "subsection " + p + "\n"; e += "end\n"; }
  return s + "set " + name + " = " + value + "\n" + e;
}
static std::string slurp(const fs::path &p)
{
  std::ifstream i(p, std::ios::binary);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
static void rows(const std::string &file, const std::vector<Row> &r)
{
  std::ofstream o(file);
  for (auto &x : r)
    {
      for (size_t i = 0; i < x.size(); ++i) o << (i ? "," : "") << num(x[i]);
      o << "\n";
    }
}
// | a | b | tables
struct Table
{
  std::vector<std::string> head;
  std::vector<std::vector<double>> row;
  int col(const std::string &n) const
  {
    for (size_t i = 0; i < head.size(); ++i) if (head[i] == n) return i;
    return -1;
  }
};
static Table table(const std::string &text)
{
  Table t;
  std::istringstream in(text);
  std::string l;
  while (std::getline(in, l))
    {
      if (l.empty() || l[0] != '|') continue;
      std::vector<std::string> f;
      std::string x;
      std::istringstream s(l.substr(1));
      while (std::getline(s, x, '|'))
        {
          const size_t a = x.find_first_not_of(" \t"), b = x.find_last_not_of(" \t");
          if (a != std::string::npos) f.push_back(x.substr(a, b - a + 1));
        }
      if (t.head.empty()) t.head = f;
      else
        {
          std::vector<double> v;
          for (auto &q : f) v.push_back(q == "true" ? 1 : q == "false" ? 0 : atof(q.c_str()));
          t.row.push_back(v);
        }
    }
  return t;
}

struct Case
{
  int dim = 2, nc = 2, ns = 1, per = 1;
  bool cyclic = false, skip = true, dec = false, hom = true, damage = false, dimout = false, dimless = false, debug = false, verbose = false, direct = false;
  int staggered = 0, steps = 3, quarter = 1, cycles = 1, every = 1, hom_every = 1, np = 1;
  double T = 1, height = 1;
  std::string gb = "microfree";
  std::string str() const
  {
    std::ostringstream s;
    s << "dim=" << dim << ";crystals=" << nc << ";slips=" << ns << ";elements=" << nc * per << ";" << gb << (dec ? ";decohesion" : "") << ";" << (cyclic ? "cyclic" : "monotonic") << ";steps=" << steps << ";duration=" << T;
    if (cyclic) s << ";quarter=" << quarter << ";cycles=" << cycles << (skip ? ";skipunloading" : "");
    s << ";output=" << every << (hom ? ";homogenization=" + std::to_string(hom_every) : "") << (damage ? ";damage" : "") << (dimout ? ";dimensionless-output" : "") << (dimless ? ";dimensionless" : "") << (staggered ? staggered == 1 ? ";bouncing" : ";embracing" : "") << (debug ? ";debug-fields" : "") << (direct ? ";direct" : "") << (height != 1 ? ";height=" + shortnum(height) : "") << (verbose ? ";verbose" : "") << ";np=" << np;
    return s.str();
  }
  // instants and loads of the programme
  void programme(std::vector<double> &t, std::vector<double> &g) const
  {
    const double mx = dimless ? 1. : 0.02, mn = 0.25 * mx, amp = (mx - mn) / 2, mean = (mx + mn) / 2;
    if (!cyclic) { for (int i = 1; i <= steps; ++i) { t.push_back(T * i / steps); g.push_back(mx * T * i / steps); } return; }
    for (int i = 1; i <= steps; ++i) { t.push_back(T * i / steps); g.push_back(mean * i / steps); }
    for (int i = 1; i <= 4 * quarter * cycles; ++i) { t.push_back(T + i / (4. * quarter)); g.push_back(mean + amp * std::sin(2 * M_PI * i / (4. * quarter))); }
    if (!skip) for (int i = 1; i <= steps; ++i) { t.push_back(T + cycles + T * i / steps); g.push_back(mean * (steps - i) / steps); }
  }
};

static std::string self_exe;

struct Outcome { int rc = -1; std::string log; std::map<std::string, std::string> files; };

static Outcome launch(const Case &c, const std::string &root, bool dirty)
{
  Outcome o;
  if (dirty)
    {
      fs::create_directories(root + "/run/results/paraview");
      for (const char *n : {"solution_00099.pvtu", "solution_00099.0.vtu", "old.vtu"}) std::ofstream(root + "/run/results/paraview/" + n) << "old";
      std::ofstream(root + "/run/results/paraview/keep.txt") << "mine";
      std::ofstream(root + "/run/results/notes.txt") << "mine";
    }
  // Open MPI's session directory of a process of its own, so that concurrent runs do not remove each other's
  char tmp[] = "/tmp/vpXXXXXX";
  if (!mkdtemp(tmp)) throw std::runtime_error("mkdtemp");
  const int pid = fork();
  if (pid == 0)
    {
      if (chdir((root + "/run").c_str())) _exit(98);
      const int fd = ::open((root + "/log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(fd, 1);
      dup2(fd, 2);
      setenv("DEAL_II_NUM_THREADS", "1", 1);
      setenv("TMPDIR", tmp, 1);
      if (c.np == 1) execl(self_exe.c_str(), self_exe.c_str(), "--app", "p.prm", (char *)nullptr);
      else execlp("mpirun", "mpirun", "--oversubscribe", "-np", std::to_string(c.np).c_str(), self_exe.c_str(), "--app", "p.prm", (char *)nullptr);
      _exit(99);
    }
  int st = 0;
  waitpid(pid, &st, 0);
  fs::remove_all(tmp);
  o.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
  o.log = slurp(root + "/log");
  for (auto &e : fs::recursive_directory_iterator(root))
    if (e.is_regular_file() && e.path() != root + "/log") o.files[fs::relative(e.path(), root).string()] = slurp(e.path());
  return o;
}
static std::string undated(const std::string &s)
{
  std::istringstream in(s);
  std::string l, r;
  while (std::getline(in, l))
    if (l.find("generated by the deal.II library on") == std::string::npos && l.find("This file was generated") == std::string::npos) r += l + "\n";
  return r;
}

static std::vector<std::pair<std::string, std::vector<double>>> numbers(const std::string &s)
{
  std::vector<std::pair<std::string, std::vector<double>>> r;
  const Table t = table(s);
  for (size_t i = 0; i < t.head.size(); ++i)
    {
      std::vector<double> v;
      for (auto &q : t.row) v.push_back(i < q.size() ? q[i] : NAN);
      r.push_back({t.head[i], v});
    }
  return r;
}

// the base64 and zlib encoded arrays of a .vtu file: (corner, cell centre) -> field -> values
static std::string base64(const std::string &s)
{
  std::string o;
  unsigned acc = 0, bits = 0;
  for (char ch : s)
    {
      int v = ch >= 'A' && ch <= 'Z' ? ch - 'A' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 26 : ch >= '0' && ch <= '9' ? ch - '0' + 52 : ch == '+' ? 62 : ch == '/' ? 63 : -1;
      if (v < 0) continue;
      acc = acc << 6 | v;
      bits += 6;
      if (bits >= 8) { bits -= 8; o += char(acc >> bits & 255); }
    }
  return o;
}
static std::vector<double> array(std::string text, const std::string &type)
{
  text.erase(std::remove_if(text.begin(), text.end(), [](char ch) { return isspace((unsigned char)ch); }), text.end());
  auto u32 = [](const std::string &b, size_t i) { uint32_t v; memcpy(&v, b.data() + 4 * i, 4); return v; };
  std::vector<double> r;
  if (text.size() < 8) return r;
  const unsigned n = u32(base64(text.substr(0, 8)), 0), hl = (4 * (3 + n) + 2) / 3 * 4;
  const std::string head = base64(text.substr(0, hl)), data = base64(text.substr(hl));
  std::string o;
  size_t at = 0;
  for (unsigned b = 0; b < n; ++b)
    {
      const unsigned comp = u32(head, 3 + b);
      std::string out(b + 1 == n && u32(head, 2) ? u32(head, 2) : u32(head, 1), 0);
      uLongf len = out.size();
      if (uncompress((Bytef *)out.data(), &len, (const Bytef *)data.data() + at, comp) != Z_OK) throw std::runtime_error("a .vtu array cannot be decompressed");
      o += out.substr(0, len);
      at += comp;
    }
  if (type == "Float32") for (size_t i = 0; i + 4 <= o.size(); i += 4) { float v; memcpy(&v, o.data() + i, 4); r.push_back(v); }
  if (type == "Float64") for (size_t i = 0; i + 8 <= o.size(); i += 8) { double v; memcpy(&v, o.data() + i, 8); r.push_back(v); }
  return r;
}
using Point3 = std::array<double, 3>;
using Field = std::map<std::pair<Point3, Point3>, std::map<std::string, std::vector<double>>>;
static void read_vtu(const std::string &s, unsigned corners, Field &f)
{
  std::vector<double> pts;
  std::map<std::string, std::vector<double>> a;
  size_t at = 0;
  auto attr = [](const std::string &t, const std::string &n) {
    const size_t i = t.find(n + "=\"");
    return i == std::string::npos ? std::string() : t.substr(i + n.size() + 2, t.find('"', i + n.size() + 2) - i - n.size() - 2);
  };
  while ((at = s.find("<DataArray", at)) != std::string::npos)
    {
      const size_t e = s.find('>', at), z = s.find("</DataArray>", e);
      const std::string tag = s.substr(at, e - at), name = attr(tag, "Name"), type = attr(tag, "type");
      if (type == "Float32" || type == "Float64") (name.empty() ? pts : a[name]) = array(s.substr(e + 1, z - e - 1), type);
      at = z;
    }
  auto r = [](double v) { return std::round(v * 1e5) / 1e5 + 0.; };
  const size_t n = pts.size() / 3;
  for (size_t i = 0; i < n; i += corners)
    {
      Point3 m{0, 0, 0};
      for (size_t k = i; k < i + corners; ++k) for (int d = 0; d < 3; ++d) m[d] += pts[3 * k + d] / corners;
      for (int d = 0; d < 3; ++d) m[d] = r(m[d]);
      for (size_t k = i; k < i + corners; ++k)
        for (auto &q : a)
          {
            const unsigned nc = q.second.size() / n;
            f[{Point3{r(pts[3 * k]), r(pts[3 * k + 1]), r(pts[3 * k + 2])}, m}][q.first].assign(q.second.begin() + nc * k, q.second.begin() + nc * (k + 1));
          }
    }
}
static Field record(const Outcome &o, const std::string &name, unsigned i, unsigned corners)
{
  Field f;
  char b[64];
  snprintf(b, 64, "%s_%05u.", name.c_str(), i);
  for (auto &x : o.files)
    {
      const std::string n = fs::path(x.first).filename().string();
      if (n.rfind(b, 0) == 0 && n.size() > 4 && n.substr(n.size() - 4) == ".vtu") read_vtu(x.second, corners, f);
    }
  return f;
}
static std::string where(const Point3 &p) { return "(" + shortnum(p[0]) + "," + shortnum(p[1]) + "," + shortnum(p[2]) + ")"; }

static void run(Explorer &ex, const Case &c)
{
  const std::string key = c.str();
  if (!ex.begin(key)) return;
  const std::string root = fs::absolute(ex.workdir).string() + "/case";
  auto prepare = [&]() {
    fs::remove_all(root);
    fs::create_directories(root + "/run");
    fs::create_directories(root + "/in");
    std::vector<Row> angles, d, n;
    for (int i = 0; i < c.nc; ++i) angles.push_back(c.dim == 2 ? Row{17. + 31 * i} : Row{20. + 30 * i, 40. - 15 * i, 5.});
    if (c.dim == 2) { d = {{1, 0}, {1, 2}}; n = {{0, 1}, {-2, 1}}; }
    else { d = {{1, 1, 0}, {0, 1, -1}}; n = {{1, -1, 1}, {1, 1, 1}}; }
    d.resize(c.ns);
    n.resize(c.ns);
    rows(root + "/in/angles.txt", angles);
    rows(root + "/in/directions.txt", d);
    rows(root + "/in/normals.txt", n);
    const std::string S = "1. Spatial discretization parameters", T = "2. Temporal discretization parameters/Simple loading", V = "6. Solver parameters", L = V + "/Constitutive laws' parameters", O = "4. Output parameters";
    const double mx = c.dimless ? 1. : 0.02;
    std::string p = line(S, "FE's polynomial degree - Displacements", "1") + line(S, "FE's polynomial degree - Slips", "1") +
                    line(S, "Number of global refinements", "0") + line(S, "Spatial dimension", std::to_string(c.dim)) + line(S, "Mapping - Polynomial degree", "1") +
                    line(S + "/Problem specific parameters", "Height of the strip", num(c.height)) +
                    line(S + "/Problem specific parameters", "Number of elements in y-direction", std::to_string(c.nc * c.per)) +
                    line(S + "/Problem specific parameters", "Number of equally sized crystals in y-direction", std::to_string(c.nc)) +
                    line(T, "Loading type", c.cyclic ? "cyclic" : "monotonic") + line(T, "Maximum load", num(mx)) + line(T, "Minimum load", num(0.25 * mx)) +
                    line(T + "/Monotonic load parameters", "Number of steps during monotonic load", std::to_string(c.steps)) +
                    line(T + "/Monotonic load parameters", "Duration of monotonic load", num(c.T)) +
                    line(T + "/Cyclic load parameters", "Number of steps during a quarter cycle", std::to_string(c.quarter)) +
                    line(T + "/Cyclic load parameters", "Number of cycles", std::to_string(c.cycles)) +
                    line(T + "/Cyclic load parameters", "Duration of un- and loading phase", num(c.T)) +
                    line(T + "/Cyclic load parameters", "Period", "1.0") +
                    line(T + "/Cyclic load parameters", "Number of steps during un- and loading phase", std::to_string(c.steps)) +
                    line(T + "/Cyclic load parameters", "Skip unloading phase", c.skip ? "true" : "false") +
                    line("3. Input parameters", "Euler angles path name", root + "/in/angles") +
                    line("3. Input parameters", "Slip directions path name", root + "/in/directions") +
                    line("3. Input parameters", "Slip normals path name", root + "/in/normals") +
                    line(O, "Graphical output directory", "results/") + line(O, "Graphical output frequency", std::to_string(c.every)) +
                    line(O, "Output damage variable field", c.damage ? "true" : "false") + line(O, "Output dimensionless quantities", c.dimout ? "true" : "false") +
                    line("5. Postprocessing parameters/Homogenization", "Compute homogenized quantities", c.hom ? "true" : "false") +
                    line("5. Postprocessing parameters/Homogenization", "Homogenization frequency", std::to_string(c.hom_every)) +
                    line(V, "Allow decohesion at grain boundaries", c.dec ? "true" : "false") + line(V, "Boundary conditions at grain boundaries", c.gb) +
                    line(V, "Solution algorithm", c.staggered == 1 ? "bouncing" : c.staggered ? "embracing" : "monolithic") + line(V + "/Staggered algorithm", "Maximum number of solution loops", "400") + (c.direct ? line(V + "/Monolithic algorithm/Krylov parameters", "Solver type", "directsolver") + line(V + "/Staggered algorithm/Linear momentum balance/Krylov parameters", "Solver type", "directsolver") + line(V + "/Staggered algorithm/Pseudo-balance/Krylov parameters", "Solver type", "directsolver") : std::string()) + line(V + "/Staggered algorithm/Linear momentum balance/Newton-Raphson parameters", "Maximum number of iterations", "80") + line(V + "/Staggered algorithm/Pseudo-balance/Newton-Raphson parameters", "Maximum number of iterations", "80") + line(V + "/Monolithic algorithm/Newton-Raphson parameters", "Maximum number of iterations", "60") + line(V, "Output debug fields", c.debug ? "true" : "false") + line(V, "Print sparsity pattern", c.debug ? "true" : "false") + line(V, "Verbose", c.verbose ? "true" : "false") +
                    line(V + "/Dimensionless formulation parameters", "Solve the dimensionless problem", c.dimless ? "true" : "false");
    // a mildly plastic material in the units of the load
    p += "set Verbose = " + std::string(c.verbose ? "true" : "false") + "\n";
    if (!c.dimless)
      p += line(L + "/Hooke-Law's parameters", "C1111", "100.") + line(L + "/Hooke-Law's parameters", "C1122", "50.") + line(L + "/Hooke-Law's parameters", "C1212", "40.") +
           line(L + "/Hardening law's parameters", "Initial slip resistance", "0.5") + line(L + "/Hardening law's parameters", "Linear hardening modulus", "1.") +
           line(L + "/Vectorial microstress law's parameters", "Initial slip resistance", "0.5") +
           line(L + "/Scalar microstress law's parameters", "Regularization parameter", "0.1") +
           line(L + "/Cohesive law's parameters", "Critical cohesive traction", "5.") + line(L + "/Cohesive law's parameters", "Critical opening displacement", "0.02") +
           line(L + "/Contact law's parameters", "Penalty coefficient", "500.") + line(L + "/Microtraction law's parameters", "Grain boundary modulus", "1.");
    std::ofstream(root + "/run/p.prm") << p;
  };
  try
    {
      prepare();
      const Outcome a = launch(c, root, false);
      if (!ex.check(a.rc == 0, "run-failed", "exit status " + std::to_string(a.rc) + ": " + a.log.substr(a.log.size() > 900 ? a.log.size() - 900 : 0)))
        {
          ex.trace();
          ex.end();
          return;
        }
      std::vector<double> times, loads;
      c.programme(times, loads);
      const unsigned N = times.size();
      const std::string R = "run/results/";
      auto has = [&](const std::string &n) { return a.files.count(n) > 0; };
      // files
      std::set<std::string> expect = {"run/p.prm", "in/angles.txt", "in/directions.txt", "in/normals.txt", R + "parameter_file.prm", R + "stress12_vs_shear_strain_at_boundary.txt", R + "solution_algorithm_statistics.txt", R + "homogenization.txt", R + "triangulation.vtu"};
      for (auto &n : expect) ex.check(has(n), "missing-file", n + " does not exist");
      unsigned outs = 0;
      for (unsigned i = 1; i <= N; ++i) outs += i % c.every == 0 || i == N;
      std::map<std::string, std::set<std::string>> recs;
      for (auto &f : a.files)
        {
          const std::string n = f.first;
          ex.check(expect.count(n) || n.rfind(R, 0) == 0, "stray-file", n + " was written outside the configured directory");
          if (n.rfind(R + "paraview/", 0) == 0)
            {
              const std::string b = fs::path(n).filename().string(), e = fs::path(n).extension().string();
              if (e == ".pvtu") recs[b.substr(0, b.find_last_of('_'))].insert(b);
            }
        }
      for (const char *name : {"solution", "damage"})
        {
          const unsigned want = std::string(name) == "solution" || c.damage ? outs : 0;
          ex.check(recs[name].size() == want, std::string("cadence-") + name, std::to_string(recs[name].size()) + " records instead of " + std::to_string(want));
          for (unsigned i = 0; i < want; ++i)
            {
              char b[64];
              snprintf(b, 64, "%s_%05u.pvtu", name, i);
              ex.check(recs[name].count(b), std::string("cadence-") + name, std::string(b) + " is missing");
              // every piece named by the record exists
              const std::string s = a.files.count(R + "paraview/" + b) ? a.files.at(R + "paraview/" + b) : "";
              size_t at = 0, pieces = 0;
              while ((at = s.find("Source=\"", at)) != std::string::npos)
                {
                  at += 8;
                  const std::string piece = s.substr(at, s.find('"', at) - at);
                  ex.check(has(R + "paraview/" + piece), "missing-file", piece + " named by " + b + " does not exist");
                  ++pieces;
                }
              ex.check(pieces > 0, "missing-file", std::string(b) + " names no piece");
            }
        }
      ex.check(a.files.at("run/p.prm").size() && a.files.count("in/angles.txt"), "input-changed", "an input file is gone");
      // load-displacement table: one row per step with the applied shear
      {
        const Table t = table(a.files.at(R + "stress12_vs_shear_strain_at_boundary.txt"));
        const int k = t.col("shear_at_upper_boundary"), s = t.col("stress_12_at_upper_boundary");
        if (ex.check(k >= 0 && s >= 0, "table", "columns of the shear table") && ex.check(t.row.size() == N, "rows-shear", std::to_string(t.row.size()) + " rows instead of " + std::to_string(N)))
          for (unsigned i = 0; i < N; ++i)
            {
              ex.close(t.row[i][k], loads[i], c.dimless ? 1 : 0.02, 2e-6, "applied-shear", "row " + std::to_string(i + 1));
              ex.check(std::isfinite(t.row[i][s]), "not-finite", "stress in row " + std::to_string(i + 1));
            }
        const Table st = table(a.files.at(R + "solution_algorithm_statistics.txt"));
        ex.check(st.row.size() == N, "rows-statistics", std::to_string(st.row.size()) + " rows instead of " + std::to_string(N));
        // homogenised quantities
        const Table h = table(a.files.at(R + "homogenization.txt"));
        std::vector<unsigned> at;
        for (unsigned i = 1; i <= N; ++i) if (c.hom && (i % c.hom_every == 0 || i == N)) at.push_back(i);
        if (ex.check(h.row.size() == at.size(), "rows-homogenization", std::to_string(h.row.size()) + " rows instead of " + std::to_string(at.size())) && at.size())
          {
            const int ti = h.col("Time"), e12 = h.col("Strain_12");
            if (ex.check(ti >= 0 && e12 >= 0, "table", "columns of the homogenisation table"))
              for (unsigned i = 0; i < at.size(); ++i)
                {
                  ex.close(h.row[i][ti], times[at[i] - 1], times.back(), 2e-4, "time", "row " + std::to_string(i + 1) + " of the homogenisation table");
                  for (unsigned q = 0; q < h.row[i].size(); ++q) ex.check(std::isfinite(h.row[i][q]), "not-finite", h.head[q] + " in row " + std::to_string(i + 1));
                  // the displacement of the grain boundaries opens gaps that carry part of the shear
                  if (!c.dec && !c.dimless) ex.close(h.row[i][e12], 0.5 * loads[at[i] - 1], 0.02, 2e-6, "average-shear", "row " + std::to_string(i + 1) + " of the homogenisation table");
                  ex.transition();
                }
          }
      }
      // the fields of the solution at every written instant
      std::vector<unsigned> written;
      for (unsigned i = 1; i <= N; ++i) if (i % c.every == 0 || i == N) written.push_back(i);
      const unsigned corners = 1u << c.dim;
      for (unsigned i = 0; i < written.size(); ++i)
        {
          const Field f = record(a, "solution", i, corners);
          unsigned cells = 0;
          ex.check(f.size() && f.size() % corners == 0, "field", "record " + std::to_string(i) + " has " + std::to_string(f.size()) + " corners of cells");
          cells = f.size() / corners;
          ex.check(cells >= (unsigned)(c.nc * c.per), "field", "record " + std::to_string(i) + " has " + std::to_string(cells) + " cells");
          for (auto &q : f)
            {
              const Point3 &x = q.first.first;
              for (auto &v : q.second) for (double w : v.second) if (!std::isfinite(w)) ex.fail("not-finite", v.first + " at " + where(x) + " of record " + std::to_string(i));
              const auto u = q.second.find("Displacement");
              if (!ex.check(u != q.second.end() && u->second.size() == 3, "field", "Displacement is missing in record " + std::to_string(i))) break;
              const bool low = std::fabs(x[1]) < 1e-6, top = std::fabs(x[1] - c.height) < 1e-6;
              if (low || top)
                if (!c.dimout)
                  {
                    if (low || !c.dimless) ex.close(u->second[0], low ? 0. : loads[written[i] - 1] * c.height, 0.02, 2e-6, "field-displacement", "at " + where(x) + " of record " + std::to_string(i));
                    for (int d = 1; d < c.dim; ++d) ex.close(u->second[d], 0., 0.02, 2e-6, "field-displacement", "component " + std::to_string(d) + " at " + where(x) + " of record " + std::to_string(i));
                  }
              ex.transition();
            }
        }
      // the stored parameters are those of the run
      // a second run from the stored parameter file, over old results
      Case d = c;
      const std::string stored = a.files.at(R + "parameter_file.prm");
      prepare();
      std::ofstream(root + "/run/p.prm") << stored;
      const Outcome b = launch(d, root, true);
      if (ex.check(b.rc == 0, "rerun-failed", "exit status " + std::to_string(b.rc) + ": " + b.log.substr(b.log.size() > 900 ? b.log.size() - 900 : 0)))
        {
          for (auto &f : a.files)
            {
              if (f.first == "run/p.prm") continue;
              if (!ex.check(b.files.count(f.first), "rerun-missing", f.first + " is missing after the second run")) continue;
              const std::string x = undated(f.second), y = undated(b.files.at(f.first));
              if (x != y)
                {
                  size_t k = 0;
                  while (k < x.size() && k < y.size() && x[k] == y[k]) ++k;
                  const size_t from = k > 60 ? k - 60 : 0;
                  ex.fail("rerun-differs", f.first + " differs at byte " + std::to_string(k) + ": '" + x.substr(from, 160) + "' and '" + y.substr(from, 160) + "'");
                }
            }
          for (auto &f : b.files)
            {
              const std::string n = fs::path(f.first).filename().string();
              if (n == "keep.txt" || n == "notes.txt") ex.check(f.second == "mine", "foreign-file", f.first + " was changed");
              else ex.check(a.files.count(f.first), "old-results", f.first + " of an earlier run was left in the results");
            }
          ex.check(b.files.count(R + "paraview/keep.txt") && b.files.count(R + "notes.txt"), "foreign-file", "a file of the user was deleted");
        }
      // several processes write the same tables
      if (c.np > 1)
        {
          Case s = c;
          s.np = 1;
          prepare();
          const Outcome o = launch(s, root, false);
          if (ex.check(o.rc == 0, "run-failed", "exit status " + std::to_string(o.rc)))
           {
            for (const char *name : {"solution", "damage"})
              for (unsigned i = 0; i < written.size(); ++i)
                {
                  if (std::string(name) == "damage" && !c.damage) continue;
                  const unsigned cs = std::string(name) == "damage" ? corners / 2 : corners;
                  const Field x = record(a, name, i, cs), y = record(o, name, i, cs);
                  std::map<std::string, double> sc;
                  for (auto &q : y) for (auto &v : q.second) for (double w : v.second) sc[v.first] = std::max(sc[v.first], std::fabs(w));
                  if (!ex.check(x.size() == y.size(), "processes-field", std::string(name) + " record " + std::to_string(i) + ": " + std::to_string(x.size()) + " corners of cells instead of " + std::to_string(y.size()))) continue;
                  for (auto &q : y)
                    {
                      const auto it = x.find(q.first);
                      if (!ex.check(it != x.end(), "processes-field", std::string(name) + " record " + std::to_string(i) + ": no cell around " + where(q.first.second))) break;
                      for (auto &v : q.second)
                        {
                          const auto w = it->second.find(v.first);
                          if (!ex.check(w != it->second.end() && w->second.size() == v.second.size(), "processes-field", v.first + " is missing in record " + std::to_string(i))) break;
                          for (size_t k = 0; k < v.second.size(); ++k) ex.close(w->second[k], v.second[k], std::max(1e-3, sc[v.first]), 2e-4, "processes-field", std::string(name) + " record " + std::to_string(i) + ": " + v.first + " at " + where(q.first.first));
                        }
                    }
                }
            for (const char *n : {"stress12_vs_shear_strain_at_boundary.txt", "homogenization.txt"})
              {
                const auto x = numbers(a.files.at(R + n)), y = numbers(o.files.at(R + n));
                if (!ex.check(x.size() == y.size(), "processes", std::string(n) + ": different columns")) continue;
                for (size_t i = 0; i < x.size(); ++i)
                  {
                    if (!ex.check(x[i].second.size() == y[i].second.size(), "processes", std::string(n) + ": different rows")) break;
                    double sc = 1e-3;
                    for (double v : y[i].second) sc = std::max(sc, std::fabs(v));
                    for (size_t k = 0; k < x[i].second.size(); ++k) ex.close(x[i].second[k], y[i].second[k], sc, 2e-4, "processes", std::string(n) + " " + x[i].first + " row " + std::to_string(k + 1));
                  }
              }
           }
        }
      ex.note("steps", N);
      ex.note("output_records", outs);
      for (auto &f : a.files) ex.state(f.first + "|" + std::to_string(std::hash<std::string>()(undated(f.second))));
    }
  catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
  if(!getenv("VP_KEEP")) fs::remove_all(root);
  ex.trace();
  ex.sample(key);
  ex.end();
}

int main(int argc, char **argv)
{
  if (argc > 2 && std::string(argv[1]) == "--app") return gcp_application_main(argc - 1, argv + 1);
  self_exe = fs::read_symlink("/proc/self/exe").string();
  Explorer ex(argc, argv);
  auto go = [&](const Case &c) { run(ex, c); };
  // cadences x programmes
  for (int cyc = 0; cyc < 3; ++cyc)
    for (int steps = 1; steps <= (ex.quick ? 4 : 7); ++steps)
      for (int quarter = 1; quarter <= (cyc ? (ex.quick ? 2 : 3) : 1); ++quarter)
        for (int cycles = 1; cycles <= (cyc ? 2 : 1); ++cycles)
          for (int every : {1, 2, 3, 5, 100})
            for (int hom : {0, 1, 2, 3, 100})
              for (double T : {1., 2., 0.4})
                {
                  if (ex.quick && every != hom && every != 1 && hom != 1 && !(every == 2 && hom == 3)) continue;
                  if (ex.quick && (cyc ? (T != 1. && (every != 2 || hom != 1)) || (steps > 2 && every != 3) : T != 1. && every != 2)) continue;
                  if (ex.quick && cyc && quarter + cycles > 2 && (every == 5 || hom == 2 || steps == 3)) continue;
                  Case c;
                  c.cyclic = cyc;
                  c.skip = cyc != 2;
                  c.steps = steps;
                  c.quarter = quarter;
                  c.cycles = cycles;
                  c.every = every;
                  c.hom = hom > 0;
                  c.hom_every = hom ? hom : 1;
                  c.T = T;
                  c.nc = 1;
                  c.per = 2;
                  go(c);
                }
  // configurations
  for (int dim = 2; dim <= 3; ++dim)
    for (int nc = 1; nc <= 3; ++nc)
      for (int dec = 0; dec < 2; ++dec)
        for (const char *gb : {"microfree", "microhard", "microtraction"})
          for (int v = 0; v < 9; ++v)
            for (int np = 1; np <= 3; ++np)
              {
                Case c;
                c.dim = dim;
                c.nc = nc;
                c.dec = dec;
                c.direct = dec || v == 6;
                c.gb = gb;
                c.np = np;
                c.steps = 2;
                c.per = np > 1 ? 2 : 1;
                if (v == 1) c.damage = true;
                if (v == 2) c.dimout = true;
                if (v == 3) { if (dec || c.gb == "microtraction") continue; c.dimless = true; }
                // between two closed interfaces a grain floats in the first iterate, whose tangent is singular
                if (dec && nc == 3) continue;
                if (v == 4) c.staggered = 1;
                if (v == 7) c.staggered = 2;
                if (v == 8) c.debug = true;
                if (v == 5) c.height = 2.;
                if (v == 6) c.verbose = true;
                if (v == 1) c.ns = 2;
                if (np > 1 && ex.quick && (v > 1 || dim == 3 || nc == 1)) continue;
                if (dim == 3 && ex.quick && (v > 1 || nc > 2)) continue;
                go(c);
              }
  return ex.finish();
}
