// S06: closed-form solutions. With the slips suppressed affine boundary displacements are reproduced with uniform
// stress; with free uniform slips the response is that of the material point, solved here on its own.
#include "solver_options.h"
#include <gCP/postprocessing.h>
#include <fstream>
using namespace vp;

template <int dim>
std::string at(const dealii::Point<dim> &p)
{
  std::string s;
  for (int d = 0; d < dim; ++d) s += (d ? "," : "(") + num(p[d]);
  return s + ")";
}

struct Point
{
  // material point: unknown slips for given strain, internal variables of the last accepted step
  int dim;
  const std::vector<Slip> &x;
  Row angles;
  const Cfg &c;
  std::vector<double> go, g0;
  double dt = 1;
  M3 stress(const M3 &E, const std::vector<double> &g) const
  {
    M3 e = E;
    for (int k = 0; k < c.ns; ++k)
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) e[i][j] -= 0.5 * g[k] * (x[k].s[i] * x[k].m[j] + x[k].s[j] * x[k].m[i]);
    return stress_of(e, angles, c.C);
  }
  double resistance(int k, const std::vector<double> &g) const
  {
    double r = g0[k];
    if (!c.perfect)
      for (int b = 0; b < c.ns; ++b) r += c.H * (k == b ? 1.0 : c.q) * std::fabs(g[b] - go[b]);
    return r;
  }
  double balance(int k, const M3 &E, const std::vector<double> &g, double sign = 0) const
  {
    const M3 s = stress(E, g);
    double tau = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) tau += s[i][j] * x[k].s[i] * x[k].m[j];
    const double S = c.rate_independent ? sign : Problem<2>::regf((g[k] - go[k]) / dt, c.reg_param, c.reg);
    return tau - resistance(k, g) * S;
  }
  // one unknown, the others given: the balance is strictly decreasing in its own slip
  double solve_one(int k, const M3 &E, std::vector<double> g) const
  {
    if (c.rate_independent)
      {
        g[k] = go[k];
        const double t = balance(k, E, g), r = resistance(k, g);
        if (std::fabs(t) <= r) return go[k];
        const double sg = t > 0 ? 1 : -1;
        double lo = 0, hi = 1;
        auto f = [&](double d) { g[k] = go[k] + sg * d; return sg * balance(k, E, g, sg); };
        for (int i = 0; i < 200; ++i) { const double m = 0.5 * (lo + hi); (f(m) > 0 ? lo : hi) = m; }
        return go[k] + sg * 0.5 * (lo + hi);
      }
    double lo = go[k] - 2, hi = go[k] + 2;
    for (int i = 0; i < 200; ++i)
      {
        const double m = 0.5 * (lo + hi);
        g[k] = m;
        (balance(k, E, g) > 0 ? lo : hi) = m;
      }
    return 0.5 * (lo + hi);
  }
  // one system: bisection; several: Newton from the coordinate-wise solution, checked by its residual
  bool solve(const M3 &E, std::vector<double> &g) const
  {
    g = go;
    for (int it = 0; it < 400; ++it)
      {
        double ch = 0;
        for (int k = 0; k < c.ns; ++k)
          {
            const double n = solve_one(k, E, g);
            ch = std::max(ch, std::fabs(n - g[k]));
            g[k] = n;
          }
        if (ch < 1e-14) break;
      }
    double r = 0;
    for (int k = 0; k < c.ns; ++k)
      if (!c.rate_independent) r = std::max(r, std::fabs(balance(k, E, g)));
    return r < 1e-11;
  }
};

template <int dim>
void run(Explorer &ex, const std::string &name, const Cfg &c, const std::vector<StepSym> &h, bool macro, bool poly)
{
  const std::string key = "dim=" + std::to_string(dim) + ";" + name + ";history=" + hist_str(h);
  if (!ex.begin(key)) return;
  try
    {
      Problem<dim> p(c, ex.workdir);
      const std::string file = ex.workdir + "/homogenization.txt";
      std::ofstream table(file);
      gCP::Postprocessing::Homogenization<dim> hom(p.field, p.mapping);
      hom.init(p.solver->get_elastic_strain_law(), p.solver->get_hooke_law(), table);
      std::map<dealii::types::global_dof_index, dealii::Point<dim>> sp;
      {
        dealii::hp::MappingCollection<dim> mc(*p.mapping);
        dealii::DoFTools::map_dofs_to_support_points(mc, p.field->get_dof_handler(), sp);
      }
      std::map<dealii::types::global_dof_index, int> comp;
      std::vector<dealii::types::global_dof_index> idx;
      for (auto &cell : p.field->get_dof_handler().active_cell_iterators())
        {
          idx.resize(cell->get_fe().n_dofs_per_cell());
          cell->get_dof_indices(idx);
          for (unsigned i = 0; i < idx.size(); ++i)
            {
              const int k = p.local_component(cell->get_fe().system_to_component_index(i).first, cell->material_id());
              if (k >= 0) comp[idx[i]] = k;
            }
        }
      Point m{dim, p.sys[0], c.angles.empty() ? p.c.angles[0] : c.angles[0], c, std::vector<double>(c.ns, 0), std::vector<double>(c.ns, c.g0), 1};
      double load = 0, moved = 0;
      int k = 0;
      for (auto &y : h)
        {
          const std::string w = "step " + std::to_string(++k);
          load += y.inc * c.amp;
          M3 E;
          for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) E[i][j] = 0.5 * load * (c.A[i][j] + c.A[j][i]);
          bool ok;
          if (macro)
            {
              dealii::SymmetricTensor<2, dim> e;
              for (int i = 0; i < dim; ++i) for (int j = 0; j <= i; ++j) e[i][j] = E[i][j];
              p.solver->set_macroscopic_strain(e);
              p.macro = e;
              hom.set_macroscopic_strain(e);
              // no displacement of the boundary
              p.load = 0;
              ok = p.step(0.0, y.dt);
            }
          else ok = p.step(y.inc * c.amp, y.dt);
          if (!ok)
            {
              if (!p.not_converged()) ex.fail("exception", w + ": " + p.error);
              ex.note("steps_not_converged", 1);
              break;
            }
          m.dt = y.dt;
          std::vector<double> g(c.ns, 0.0);
          if (!c.fix_slips && !m.solve(E, g)) { ex.note("reference_not_solved", 1); break; }
          const auto s = p.values(p.field->solution);
          for (unsigned i = 0; i < s.size(); ++i)
            {
              if (!comp.count(i)) continue;
              const int q = comp[i];
              if (q >= dim)
                {
                  ex.close(s[i], g[q - dim], c.amp, 2e-7, "slip", w + ": slip " + std::to_string(q - dim) + " at " + at(sp[i]));
                  continue;
                }
              double v = 0;
              if (!macro) for (int d = 0; d < dim; ++d) v += load * c.A[q][d] * sp[i][d];
              ex.close(s[i], v, c.amp, 2e-7, "displacement", w + ": displacement " + std::to_string(q) + " at " + at(sp[i]));
            }
          const M3 sig = m.stress(E, g);
          hom.compute_macroscopic_quantities(p.time->get_next_time());
          const auto S = hom.get_macroscopic_stress();
          for (int i = 0; i < dim; ++i) for (int j = 0; j <= i; ++j) ex.close(S[i][j], sig[i][j], c.C[0] * c.amp, 2e-7, "stress", w + ": average stress " + std::to_string(i) + std::to_string(j));
          if (!c.fix_slips)
            for (auto &cell : p.field->get_dof_handler().active_cell_iterators())
              for (auto &q : p.solver->quadrature_point_history.get_data(cell))
                for (int b = 0; b < c.ns; ++b) ex.close(q->get_slip_resistance(b), m.resistance(b, g), c.g0, 1e-6, "slip-resistance", w + ": slip resistance " + std::to_string(b));
          for (int b = 0; b < c.ns; ++b) moved = std::max(moved, std::fabs(g[b] - m.go[b]));
          for (int b = 0; b < c.ns; ++b) { std::vector<double> n(c.ns); for (int a = 0; a < c.ns; ++a) n[a] = m.resistance(a, g); m.g0 = n; break; }
          m.go = g;
          p.residual(s, p.time->get_next_time());
          p.accept();
          ex.state(key.substr(0, key.find(";history")) + hist_str(std::vector<StepSym>(h.begin(), h.begin() + k)));
          ex.transition();
        }
      if (moved > 1e-4) ex.note("histories_with_slip", 1);
      ex.note_max("largest_slip_increment", moved);
    }
  catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
  ex.trace();
  ex.sample(key);
  ex.end();
  (void)poly;
}

int main(int argc, char **argv)
{
  Init init(argc, argv);
  Explorer ex(argc, argv);
  if (!getenv("VP_LOUD")) std::cout.setstate(std::ios::failbit);
  using R = RTP::RegularizationFunction;
  auto all = [&](auto tag) {
    constexpr int dim = decltype(tag)::value;
    struct L { std::string n; std::array<std::array<double, 3>, 3> A; };
    std::vector<L> loads;
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j)
        {
          L l;
          l.n = "e" + std::to_string(i) + std::to_string(j);
          for (auto &r : l.A) r.fill(0.0);
          l.A[i][j] = 1;
          loads.push_back(l);
        }
    {
      L l;
      l.n = "mixed";
      for (auto &r : l.A) r.fill(0.0);
      for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) l.A[i][j] = (i == j ? 0.3 - 0.5 * i : 0.7 - 0.4 * i + 0.2 * j);
      loads.push_back(l);
      l.n = "rotation";
      for (auto &r : l.A) r.fill(0.0);
      l.A[0][1] = 1;
      l.A[1][0] = -1;
      loads.push_back(l);
    }
    std::vector<Row> angles = dim == 2 ? std::vector<Row>{{0}, {17}, {45}, {90}, {-128}} : std::vector<Row>{{0, 0, 0}, {20, 35, 10}, {-130, 100, 75}};
    struct M { std::string n; std::vector<unsigned> m; int ny; };
    std::vector<M> ms = {{"1x2", {0, 0}, 2}, {"2x2", {0, 0, 0, 0}, 2}};
    if (dim == 2) ms.push_back({"3x3", {0, 0, 0, 0, 0, 0, 0, 0, 0}, 3});
    auto pick = [&](const std::string &n, Cfg c, bool macro, const std::vector<StepSym> &h) { run<dim>(ex, n, c, h, macro, false); };
    for (auto &m : ms)
      for (unsigned a = 0; a < angles.size(); ++a)
        for (auto &l : loads)
          for (int sk = 0; sk < 3; ++sk)
            for (int deg = 1; deg <= 2; ++deg)
              for (int macro = 0; macro < 2; ++macro)
                {
                  if (dim == 3 && ex.quick && (deg == 2 || (sk == 1) || m.m.size() > 2)) continue;
                  if (deg == 2 && (m.m.size() > 4 || (dim == 3 && m.m.size() > 2))) continue;
                  Cfg c;
                  c.mats = m.m;
                  c.ny = m.ny;
                  c.angles = {angles[a]};
                  c.A = l.A;
                  c.affine = true;
                  c.skewed = sk;
                  c.pu = c.pg = deg;
                  const std::string n = "mesh=" + m.n + ";orientation=" + std::to_string(a) + ";load=" + l.n + ";skew=" + std::to_string(sk) + ";degree=" + std::to_string(deg) + (macro ? ";macrostrain" : "");
                  // slips suppressed
                  {
                    Cfg k = c;
                    k.fix_slips = true;
                    pick(n + ";elastic", k, macro, {{1, 1}, {-1.5, 0.5}});
                    if (a == 1)
                      {
                        // crystals of an elastically isotropic material
                        Cfg q = k;
                        q.C = {{10.0, 4.0, 3.0}};
                        for (unsigned i = 0; i < q.mats.size(); ++i) q.mats[i] = i % 2;
                        q.angles = {angles[a], angles[2]};
                        pick(n + ";isotropic", q, macro, {{1, 1}});
                      }
                  }
                  if (sk == 1 || m.m.size() > 4) continue;
                  // uniform slip
                  for (int ns = 1; ns <= (dim == 3 && ex.quick ? 1 : 2); ++ns)
                    for (int v = 0; v < 6; ++v)
                      {
                        if (v && (deg == 2 || sk || m.m.size() > 2 || (ex.quick && (l.n == "rotation")))) continue;
                        if (ns == 2 && v == 5) continue;
                        Cfg k = c;
                        k.ns = ns;
                        const char *vn[] = {"tanh", "atan", "sqrt", "perfect", "stiff", "rateindependent"};
                        if (v == 1) k.reg = R::Atan;
                        if (v == 2) k.reg = R::Sqrt;
                        if (v == 3) k.perfect = true;
                        if (v == 4) k.reg_param = 0.02;
                        if (v == 5) k.rate_independent = true;
                        for (auto &h : histories(std::vector<StepSym>{{1, 1}, {-1.5, 0.5}}, ex.quick ? 2 : 3)) pick(n + ";systems=" + std::to_string(ns) + ";" + vn[v], k, macro, h);
                      }
                }
  };
  all(std::integral_constant<int, 2>());
  all(std::integral_constant<int, 3>());
  return ex.finish();
}
