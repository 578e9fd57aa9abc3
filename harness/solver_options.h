// The option lattice: single-parameter deviations from a base configuration; harnesses explore every
// combination of at most k deviations of different groups.
#pragma once
#include "solver_util.h"

namespace vp
{
struct Opt { std::string group, name; std::function<void(Cfg &)> f; };

inline bool many_slips = false; // also 12 slip systems (two dimensions)
inline std::vector<Opt> solver_options(int dim)
{
  using A = RTP::SolutionAlgorithm;
  using B = RTP::BoundaryConditionsAtGrainBoundaries;
  using R = RTP::RegularizationFunction;
  using K = RTP::SolverType;
  std::vector<Opt> o = {
    {"algo", "bouncing", [](Cfg &c) { c.algo = A::Bouncing; }},
    {"algo", "embracing", [](Cfg &c) { c.algo = A::Embracing; }},
    {"krylov", "cg", [](Cfg &c) { c.krylov = K::CG; }},
    {"krylov", "gmres", [](Cfg &c) { c.krylov = K::GMRES; }},
    {"line", "linesearch", [](Cfg &c) { c.line_search = true; }},
    {"extra", "noextrapolation", [](Cfg &c) { c.extrapolate = false; }},
    {"reset", "resetmicro", [](Cfg &c) { c.reset_micro = true; }},
    {"mesh", "three", [](Cfg &c) { c.mats = {0, 0, 0}; }},
    {"mesh", "bicrystal", [](Cfg &c) { c.mats = {0, 1}; }},
    {"mesh", "sandwich", [](Cfg &c) { c.mats = {0, 1, 0}; }},
    {"mesh", "tricrystal", [](Cfg &c) { c.mats = {1, 2, 0}; }},
    {"mesh", "corner", [](Cfg &c) { c.mats = {0, 0, 0, 1}; c.ny = 2; }},
    {"mesh", "checker", [](Cfg &c) { c.mats = {0, 1, 1, 0}; c.ny = 2; }},
    {"mesh", "island", [](Cfg &c) { c.mats = {0, 0, 1, 0, 0, 0}; c.ny = 3; }},
    {"mesh", "stack", [](Cfg &c) { c.mats = {1, 0, 1, 0}; c.ny = 2; }},
    {"gb", "microtraction", [](Cfg &c) { c.gb = B::Microtraction; if (c.mats == std::vector<unsigned>{0, 0}) c.mats = {0, 1}; }},
    {"gb", "microhard", [](Cfg &c) { c.gb = B::Microhard; if (c.mats == std::vector<unsigned>{0, 0}) c.mats = {0, 1}; }},
    {"dec", "decohesion", [](Cfg &c) { c.dec = true; if (c.mats == std::vector<unsigned>{0, 0}) c.mats = {0, 1}; }},
    {"dec", "decohesion-normal", [](Cfg &c) { c.dec = true; c.load_dir = 0; if (c.mats == std::vector<unsigned>{0, 0}) c.mats = {0, 1}; }},
    {"damage", "m1", [](Cfg &c) { c.damage = RTP::DamageEvolutionModel::M1; }},
    {"couple", "couplemacro", [](Cfg &c) { c.couple_macro = true; }},
    {"couple", "couplemicro", [](Cfg &c) { c.couple_micro = true; }},
    {"couple", "coupleboth", [](Cfg &c) { c.couple_micro = c.couple_macro = true; }},
    {"skew", "skewed", [](Cfg &c) { c.skewed = 1; }},
    {"skew", "distorted", [](Cfg &c) { c.skewed = 2; }},
    {"ns", "ns2", [](Cfg &c) { c.ns = 2; }},
    {"ns", "ns3", [](Cfg &c) { c.ns = 3; }},
    {"reg", "atan", [](Cfg &c) { c.reg = R::Atan; }},
    {"reg", "sqrt", [](Cfg &c) { c.reg = R::Sqrt; }},
    {"reg", "gd", [](Cfg &c) { c.reg = R::Gd; }},
    {"reg", "erf", [](Cfg &c) { c.reg = R::Erf; }},
    {"flow", "perfect", [](Cfg &c) { c.perfect = true; }},
    {"flow", "selfhardening", [](Cfg &c) { c.q = 0; c.H = 2.0; }},
    {"energy", "p3", [](Cfg &c) { c.p = 3.0; }},
    {"energy", "l0", [](Cfg &c) { c.l = 0.0; }},
    {"ends", "microhardends", [](Cfg &c) { c.microhard_ends = true; }},
    {"bc", "neumann", [](Cfg &c) { c.neumann = true; }},
    {"bc", "free-neumann", [](Cfg &c) { c.neumann = true; c.free_right = true; }},
    {"supply", "supply", [](Cfg &c) { c.supply = true; }},
    {"macro", "macrostrain", [](Cfg &c) { c.macro = true; }},
    {"deg", "pu2", [](Cfg &c) { c.pu = 2; }},
    {"deg", "pg2", [](Cfg &c) { c.pg = 2; }},
    {"deg", "pu2pg2", [](Cfg &c) { c.pu = c.pg = 2; }},
    {"per", "periodic", [](Cfg &c) { c.periodic = true; }},
    {"rate", "rateindependent", [](Cfg &c) { c.rate_independent = true; }},
  };
  if (dim == 2 && many_slips) o.push_back({"ns", "ns12", [](Cfg &c) { c.ns = 12; }});
  if (dim == 3)
    o.erase(std::remove_if(o.begin(), o.end(), [](const Opt &x) { return x.name == "tricrystal" || x.name == "three" || x.name == "island" || x.name == "checker"; }), o.end());
  return o;
}

inline bool admissible(const Cfg &c)
{
  using B = RTP::BoundaryConditionsAtGrainBoundaries;
  bool poly = false;
  for (auto m : c.mats) poly |= m != c.mats[0];
  if (!poly && (c.dec || c.gb != B::Microfree)) return false;
  if (c.dec && (c.free_right || !(c.mats.size() == 2 || c.ny == 2))) return false; // a detached middle crystal has no unique position
  if (!c.dec && (c.couple_macro || c.couple_micro || c.damage == RTP::DamageEvolutionModel::M1)) return false;
  if (c.periodic)
    {
      if (c.skewed) return false; // the faces do not match
      const unsigned nx = c.mats.size() / c.ny;
      for (unsigned i = 0; i < nx; ++i)
        if (c.mats[i] != c.mats[c.mats.size() - nx + i]) return false;
    }
  if (c.couple_micro && c.gb != B::Microtraction) return false;
  if (c.rate_independent && c.gb == B::Microtraction) return false; // rejected by the solver
  if (c.reset_micro && c.algo == RTP::SolutionAlgorithm::Monolithic) return false;
  if (c.algo == RTP::SolutionAlgorithm::Embracing && c.dec) return false;
  return true;
}

// every admissible combination of at most `depth` deviations
inline void for_each_config(int dim, int depth, const std::function<void(const std::string &, const Cfg &, int)> &cb,
                            const std::function<bool(const Opt &)> &use = nullptr, const Cfg &base = Cfg())
{
  std::vector<Opt> o = solver_options(dim);
  if (use) o.erase(std::remove_if(o.begin(), o.end(), [&](const Opt &x) { return !use(x); }), o.end());
  std::function<void(size_t, int, std::vector<size_t> &)> rec = [&](size_t from, int left, std::vector<size_t> &sel) {
    Cfg c = base;
    std::string name;
    for (auto i : sel)
      {
        o[i].f(c);
        name += (name.empty() ? "" : "+") + o[i].name;
      }
    if (admissible(c)) cb(name.empty() ? "base" : name, c, sel.size());
    if (!left) return;
    for (size_t i = from; i < o.size(); ++i)
      {
        bool clash = false;
        for (auto j : sel) clash |= o[j].group == o[i].group;
        if (clash) continue;
        sel.push_back(i);
        rec(i + 1, left - 1, sel);
        sel.pop_back();
      }
  };
  std::vector<size_t> sel;
  rec(0, depth, sel);
}

// The bases whose neighbourhoods are explored
struct Base { std::string name; Cfg c; int depth_quick, depth_thorough; };
inline std::vector<Base> bases(int dim)
{
  std::vector<Base> b;
  Cfg c;
  b.push_back({"", c, dim == 2 ? 2 : 1, dim == 2 ? 3 : 2});
  c.mats = {0, 1};
  c.gb = RTP::BoundaryConditionsAtGrainBoundaries::Microtraction;
  c.ns = 2;
  b.push_back({"MT:", c, 1, 2});
  c.dec = c.couple_macro = c.couple_micro = true;
  b.push_back({"MTDEC:", c, 1, 2});
  c.gb = RTP::BoundaryConditionsAtGrainBoundaries::Microfree;
  c.couple_micro = false;
  c.ns = 1;
  c.load_dir = 0;
  c.amp = 0.1;
  c.damage = RTP::DamageEvolutionModel::M1;
  b.push_back({"DECM1:", c, 1, 2});
  return b;
}

// every sequence of step symbols of exactly this length
struct StepSym { double inc, dt; };
inline std::vector<std::vector<StepSym>> histories(const std::vector<StepSym> &alphabet, int depth)
{
  std::vector<std::vector<StepSym>> r;
  std::vector<int> idx(depth, 0);
  do
    {
      std::vector<StepSym> h;
      for (int i : idx) h.push_back(alphabet[i]);
      r.push_back(h);
    }
  while (next(idx, std::vector<int>(depth, alphabet.size())));
  return r;
}
inline std::string hist_str(const std::vector<StepSym> &h)
{
  std::string s;
  for (auto &x : h) s += (s.empty() ? "" : ",") + shortnum(x.inc) + "@" + shortnum(x.dt);
  return s;
}
} // namespace vp
