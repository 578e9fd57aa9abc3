// S11: in a rate-independent material a slip evolves only where the elastic predictor exceeds the slip resistance,
// and no slip that is left alone is above it (own predictor, own nodal resistances).
#include "solver_options.h"
using namespace vp;

template <int dim>
struct Yield
{
  Problem<dim> &p;
  std::vector<double> g, m;                    // nodal slip resistances, weights
  std::vector<int> slip;                       // slip system of an unknown, -1 for displacements
  std::vector<std::vector<unsigned>> node;     // unknowns of all slip systems at the node of an unknown
  std::vector<std::set<unsigned>> around;      // unknowns of the same slip system in the cells around it
  Yield(Problem<dim> &p) : p(p)
  {
    const unsigned n = p.field->n_dofs();
    g.assign(n, p.c.g0);
    slip.assign(n, -1);
    node.resize(n);
    around.resize(n);
    std::vector<dealii::types::global_dof_index> idx;
    for (auto &cell : p.field->get_dof_handler().active_cell_iterators())
      {
        const auto &fe = cell->get_fe();
        idx.resize(fe.n_dofs_per_cell());
        cell->get_dof_indices(idx);
        std::map<unsigned, std::vector<unsigned>> at;
        for (unsigned i = 0; i < idx.size(); ++i)
          {
            const auto ci = fe.system_to_component_index(i);
            const int k = p.local_component(ci.first, cell->material_id());
            if (k < dim) continue;
            slip[idx[i]] = k - dim;
            auto &v = at[ci.second];
            v.resize(p.c.ns);
            v[k - dim] = idx[i];
          }
        for (auto &a : at) for (unsigned i : a.second) node[i] = a.second;
        for (auto &a : at) for (auto &b : at) for (int k = 0; k < p.c.ns; ++k) around[a.second[k]].insert(b.second[k]);
      }
  }
  // elastic predictor: the displacements of the end with the slips of the start of the step, divided by the weights
  std::vector<double> predictor(const std::vector<double> &sol)
  {
    using namespace dealii;
    std::vector<double> y = sol;
    for (unsigned i = 0; i < y.size(); ++i) if (slip[i] >= 0) y[i] = p.old_sol[i];
    const RefState keep = p.trial;
    std::vector<double> F = p.residual(y, p.time->get_next_time());
    p.trial = keep;
    m.assign(y.size(), 0);
    hp::MappingCollection<dim> mc(*p.mapping);
    hp::QCollection<dim> qc(QGauss<dim>(3));
    hp::QCollection<dim - 1> fqc(QGauss<dim - 1>(3));
    hp::FEValues<dim> hfe(mc, p.field->get_fe_collection(), qc, update_values | update_JxW_values);
    hp::FEFaceValues<dim> hf(mc, p.field->get_fe_collection(), fqc, update_values | update_gradients | update_JxW_values | update_normal_vectors);
    std::vector<types::global_dof_index> idx;
    for (auto &cell : p.field->get_dof_handler().active_cell_iterators())
      {
        const unsigned cr = cell->material_id();
        const auto &fe = cell->get_fe();
        idx.resize(fe.n_dofs_per_cell());
        cell->get_dof_indices(idx);
        std::vector<int> k(idx.size());
        for (unsigned i = 0; i < idx.size(); ++i) k[i] = p.local_component(fe.system_to_component_index(i).first, cr) - dim;
        hfe.reinit(cell);
        const auto &v = hfe.get_present_fe_values();
        for (unsigned q = 0; q < v.n_quadrature_points; ++q)
          for (unsigned i = 0; i < idx.size(); ++i) if (k[i] >= 0) m[idx[i]] += v.shape_value(i, q) * v.JxW(q);
        for (unsigned f = 0; f < GeometryInfo<dim>::faces_per_cell; ++f)
          {
            if (!cell->at_boundary(f)) continue;
            hf.reinit(cell, f);
            const auto &w = hf.get_present_fe_values();
            for (unsigned q = 0; q < w.n_quadrature_points; ++q)
              {
                std::vector<Tensor<1, dim>> gg(p.c.ns);
                for (unsigned i = 0; i < idx.size(); ++i) if (k[i] >= 0) gg[k[i]] += p.old_sol[idx[i]] * w.shape_grad(i, q);
                for (unsigned i = 0; i < idx.size(); ++i)
                  {
                    if (k[i] < 0) continue;
                    const Slip &x = p.sys[cr][k[i]];
                    double gs = 0, gl = 0, sn = 0, ln = 0;
                    for (int j = 0; j < dim; ++j)
                      {
                        gs += gg[k[i]][j] * x.s[j];
                        gl += gg[k[i]][j] * x.l[j];
                        sn += x.s[j] * w.normal_vector(q)[j];
                        ln += x.l[j] * w.normal_vector(q)[j];
                      }
                    const double fac = p.c.g0v * std::pow(p.c.l, p.c.p);
                    const double ms = gs == 0 ? 0 : fac * std::pow(std::fabs(gs), p.c.p - 2) * gs, ml = gl == 0 || dim == 2 ? 0 : fac * std::pow(std::fabs(gl), p.c.p - 2) * gl;
                    F[idx[i]] -= w.shape_value(i, q) * (ms * sn + ml * ln) * w.JxW(q);
                  }
              }
          }
      }
    for (unsigned i = 0; i < F.size(); ++i) F[i] = slip[i] >= 0 ? -F[i] / m[i] : 0;
    return F;
  }
  std::vector<double> resistance(const std::vector<double> &sol) const
  {
    std::vector<double> r = g;
    if (!p.c.perfect)
      for (unsigned i = 0; i < r.size(); ++i)
        if (slip[i] >= 0)
          for (int b = 0; b < p.c.ns; ++b) r[i] += p.c.H * (b == slip[i] ? 1.0 : p.c.q) * std::fabs(sol[node[i][b]] - p.old_sol[node[i][b]]);
    return r;
  }
};

// the nodal slip resistances of the solver, if it has them
template <class S> auto nodal(S &s, unsigned i, int) -> decltype(double(s.slip_resistance(i))) { return s.slip_resistance(i); }
template <class S> double nodal(S &, unsigned, long) { return NAN; }

template <int dim>
void run(Explorer &ex, const std::string &name, const Cfg &c, const std::vector<StepSym> &h, double *stats)
{
  const std::string key = "dim=" + std::to_string(dim) + ";options=" + name + ";history=" + hist_str(h);
  if (!ex.begin(key)) return;
  try
    {
      Problem<dim> p(c, ex.workdir);
      Yield<dim> y(p);
      int k = 0;
      for (auto &x : h)
        {
          ++k;
          stats[0]++;
          const std::string w = "step " + std::to_string(k);
          if (!p.step(x.inc * c.amp, x.dt))
            {
              if (!p.not_converged()) ex.fail("exception", w + ": " + p.error);
              ex.note("steps_not_converged", 1);
              break;
            }
          stats[1]++;
          const auto s = p.values(p.field->solution);
          p.residual(s, p.time->get_next_time());
          const auto tau = y.predictor(s), g = y.resistance(s);
          dealii::AffineConstraints<double> a;
          a.copy_from(p.field->get_affine_constraints());
          // unknowns that flow together
          std::map<unsigned, std::vector<unsigned>> group;
          for (unsigned i = 0; i < s.size(); ++i)
            {
              if (y.slip[i] < 0) continue;
              if (!a.is_constrained(i)) group[i].push_back(i);
              else if (a.get_constraint_entries(i)->size() == 1) group[(*a.get_constraint_entries(i))[0].first].push_back(i);
            }
          if (!c.perfect)
            for (unsigned i = 0; i < s.size(); ++i)
              if (y.slip[i] >= 0 && !std::isnan(nodal(*p.solver, i, 0)))
                ex.close(nodal(*p.solver, i, 0), g[i], g[i], 1e-9, "resistance", w + ", resistance of slip unknown " + std::to_string(i) + " (system " + std::to_string(y.slip[i] + 1) + ")");
          for (auto &gr : group)
            {
              double over = -1e300, most = c.g0, sum = 0, weight = 0;
              bool moved = false;
              for (unsigned i : gr.second)
                {
                  over = std::max(over, std::fabs(tau[i]) / g[i]);
                  moved |= std::fabs(s[i] - p.old_sol[i]) > 1e-11;
                  sum += y.m[i] * tau[i];
                  weight += y.m[i];
                  // a slip at rest carries at most the resistance of the material around its node, also between the nodes
                  for (unsigned j : y.around[i]) most = std::max(most, c.g0 + (g[j] - c.g0) * (c.pg == 2 ? std::pow(1.25, dim) : 1));
                }
              const double rest = std::fabs(sum / weight) / most;
              const std::string ww = w + ", slip unknown " + std::to_string(gr.first) + " (system " + std::to_string(y.slip[gr.first] + 1) + "): predictor " + num(over) + " times its resistance";
              if (over < 1 - 1e-6) ex.check(!moved, "flows-below-resistance", ww + ", but the slip changes by " + num(s[gr.first] - p.old_sol[gr.first]));
              if (rest > 1 + 1e-6) ex.check(moved, "rests-above-resistance", ww + ", but the slip keeps its value");
              stats[moved ? 2 : 3]++;
              ex.transition();
            }
          ex.state(name + hist_str(std::vector<StepSym>(h.begin(), h.begin() + k)) + std::to_string(dim));
          p.accept();
          y.g = g;
        }
    }
  catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
  ex.trace();
  ex.sample(key);
  ex.end();
}

int main(int argc, char **argv)
{
  Init init(argc, argv);
  Explorer ex(argc, argv);
  if (!getenv("VP_LOUD")) std::cout.setstate(std::ios::failbit);
  double stats[4] = {0, 0, 0, 0};
  const std::vector<StepSym> fine = {{4.5, 1}, {0.5, 1}, {0.8, 1}, {-7, 0.5}}, full = {{4.5, 1}, {-7, 0.5}, {0, 2}, {7, 1}}, small = {{5, 1}, {-5, 0.5}, {7, 1}};
  auto all = [&](auto tag) {
    constexpr int dim = decltype(tag)::value;
    // one slip system; two; two that harden strongly, and each other more than themselves
    for (int kind : {1, 2, 3})
      {
        Cfg b;
        b.rate_independent = true;
        b.ns = std::min(kind, 2);
        if (kind == 3) { b.H = 6; b.q = 2; }
        for_each_config(dim, dim == 2 ? (ex.quick ? 2 : 3) : (ex.quick ? 1 : 2), [&](const std::string &n, const Cfg &c, int d) {
          const bool deep = dim == 2 ? d <= 1 : d == 0;
          const int depth = ex.quick ? (deep ? 3 : 2) : (deep ? 4 : 3);
          // small increments after a large one: predictors between the resistances of two systems at the same node
          if (kind > 1 && deep && dim == 2 && !c.dec)
            for (auto &h : histories(fine, ex.quick ? 3 : 5)) if (h[0].inc != fine[1].inc && h[0].inc != fine[2].inc) run<dim>(ex, std::string(kind == 2 ? "ns2:" : "latent:") + n, c, h, stats);
          for (auto &h : histories(deep ? full : small, depth)) run<dim>(ex, std::string(kind == 1 ? "ns1:" : kind == 2 ? "ns2:" : "latent:") + n, c, h, stats);
        }, [&](const Opt &o) { return o.group != "rate" && o.group != "gb" && o.group != "damage" && o.group != "couple" && o.group != "reg" && o.group != "ns" && o.group != "krylov" && (kind != 3 || o.name != "embracing"); }, b);
      }
  };
  all(std::integral_constant<int, 2>());
  all(std::integral_constant<int, 3>());
  ex.note("steps", stats[0]);
  ex.note("steps_converged", stats[1]);
  ex.note("slip_unknowns_that_flowed", stats[2]);
  ex.note("slip_unknowns_that_rested", stats[3]);
  return ex.finish();
}
