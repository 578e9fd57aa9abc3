// S09: the reported grain-boundary damage is the damage of the interface.
#include "solver_options.h"
#include <deal.II/fe/fe_q.h>
#include <deal.II/fe/mapping_q.h>
using namespace vp;

template <int dim>
std::string at(const dealii::Point<dim> &p)
{
  std::string s;
  for (int d = 0; d < dim; ++d) s += num(std::round(p[d] * 1e6) / 1e6 + 0.0) + "/";
  return s;
}

// Lumped projection on continuous quadratics and area average, assembled from one side of each face
template <int dim>
struct Ref
{
  dealii::DoFHandler<dim> dh;
  std::map<std::string, double> value;
  std::map<std::string, char> point;
  double average = 0, lo = 1e300, hi = -1e300;
  Ref(Problem<dim> &p)
  {
    dealii::FE_Q<dim> fe(2);
    dealii::MappingQ<dim> mp(1);
    dealii::QGauss<dim - 1> quad(3);
    dh.reinit(*p.tria);
    dh.distribute_dofs(fe);
    std::vector<double> m(dh.n_dofs()), r(dh.n_dofs());
    std::map<dealii::types::global_dof_index, dealii::Point<dim>> sp;
    dealii::DoFTools::map_dofs_to_support_points(mp, dh, sp);
    dealii::FEFaceValues<dim> w(mp, fe, quad, dealii::update_values | dealii::update_JxW_values | dealii::update_quadrature_points);
    std::vector<dealii::types::global_dof_index> idx(fe.n_dofs_per_cell());
    double a = 0, b = 0;
    for (auto &cell : dh.active_cell_iterators())
      for (unsigned f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; ++f)
        {
          if (cell->at_boundary(f) || cell->neighbor(f)->material_id() == cell->material_id() || cell->neighbor(f)->index() > cell->index()) continue;
          auto h = p.solver->interface_quadrature_point_history.get_data(cell->id(), cell->neighbor(f)->id());
          w.reinit(cell, f);
          cell->get_dof_indices(idx);
          for (unsigned q = 0; q < w.n_quadrature_points; ++q)
            {
              const double d = h[q]->get_damage_variable();
              lo = std::min(lo, d);
              hi = std::max(hi, d);
              a += d * w.JxW(q);
              b += w.JxW(q);
              for (unsigned i = 0; i < idx.size(); ++i)
                {
                  m[idx[i]] += w.shape_value(i, q) * w.JxW(q);
                  r[idx[i]] += w.shape_value(i, q) * w.JxW(q) * d;
                }
            }
        }
    if (b > 0) average = a / b;
    for (unsigned i = 0; i < m.size(); ++i)
      {
        point[at(sp[i])] = std::abs(m[i]) > 1e-9;
        value[at(sp[i])] = std::abs(m[i]) > 1e-9 ? r[i] / m[i] : 0.0;
      }
  }
};

template <int dim>
void judge(Explorer &ex, Problem<dim> &p, const std::string &w, bool active)
{
  Ref<dim> ref(p);
  if (!active) { ref.average = 0; for (auto &x : ref.value) x.second = 0; ref.lo = ref.hi = 0; }
  const dealii::LinearAlgebraTrilinos::MPI::Vector v(p.solver->get_damage_at_grain_boundaries());
  const double mac = p.solver->get_macroscopic_damage();
  ex.check(std::isfinite(mac), "macroscopic", w + ": macroscopic damage is " + num(mac));
  ex.close(mac, ref.average, 1.0, 1e-11, "macroscopic", w + ": macroscopic damage");
  std::map<dealii::types::global_dof_index, dealii::Point<dim>> sp;
  dealii::MappingQ<dim> mp(1);
  dealii::hp::MappingCollection<dim> mc(mp);
  dealii::DoFTools::map_dofs_to_support_points(mc, p.solver->get_projection_dof_handler(), sp);
  ex.check(v.size() == ref.value.size() && sp.size() == v.size(), "size", w + ": " + std::to_string(v.size()) + " values");
  for (auto &x : sp)
    {
      const double d = v(x.first);
      auto it = ref.value.find(at(x.second));
      if (it == ref.value.end()) { ex.fail("size", w + ": no reference point at " + at(x.second)); continue; }
      ex.close(d, it->second, 1.0, 1e-11, "field", w + ": damage at " + at(x.second));
      if (ref.point[at(x.second)] && active && ref.hi - ref.lo < 1e-12) // quadratic shape functions overshoot otherwise
        ex.check(d >= ref.lo - 1e-12 && d <= ref.hi + 1e-12, "bounds", w + ": damage " + num(d) + " at " + at(x.second) + " outside the range of the interface");
    }
}

// every assignment of a pattern to every face; each after its complement
template <int dim>
void assignments(Explorer &ex, const std::string &name, const Cfg &c, int patterns)
{
  using It = typename dealii::Triangulation<dim>::active_cell_iterator;
  std::unique_ptr<Problem<dim>> p;
  std::vector<std::vector<std::shared_ptr<gCP::InterfaceQuadraturePointHistory<dim>>>> faces;
  unsigned nf = 0;
  auto make = [&]() {
    p = std::make_unique<Problem<dim>>(c, ex.workdir);
    for (It cell = p->tria->begin_active(); cell != p->tria->end(); ++cell)
      for (unsigned f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; ++f)
        if (!cell->at_boundary(f) && cell->neighbor(f)->material_id() != cell->material_id() && cell->neighbor(f)->index() < cell->index())
          faces.push_back(p->solver->interface_quadrature_point_history.get_data(cell->id(), cell->neighbor(f)->id()));
  };
  try { make(); } catch (std::exception &e) { ex.begin(name); ex.fail("exception", std::string(e.what()).substr(0, 500)); ex.end(); return; }
  nf = faces.size();
  unsigned long total = 1;
  for (unsigned f = 0; f < nf; ++f) total *= patterns;
  auto pattern = [](int k, unsigned q, unsigned n) {
    switch (k)
      {
        case 0: return 0.0;
        case 1: return 1.0;
        case 2: return (q + 1.0) / (n + 1);
        case 3: return q == 0 ? 0.9 : 0.0;
        default: return 0.37;
      }
  };
  const bool active = c.dec || c.gb == RTP::BoundaryConditionsAtGrainBoundaries::Microtraction;
  for (unsigned long a = 0; a < total; ++a)
    {
      std::string s;
      for (unsigned long f = 0, x = a; f < nf; ++f, x /= patterns) s += char('0' + x % patterns);
      const std::string key = "dim=" + std::to_string(dim) + ";options=" + name + ";assignment=" + (s.empty() ? "none" : s);
      if (!ex.begin(key)) continue;
      try
        {
          for (int pass = 0; pass < 2; ++pass)
            {
              for (unsigned f = 0; f < nf; ++f)
                for (unsigned q = 0; q < faces[f].size(); ++q)
                  {
                    const double d = pattern(s[f] - '0', q, faces[f].size());
                    faces[f][q]->set(pass ? d : 1 - d);
                  }
              judge<dim>(ex, *p, pass ? "assignment" : "complement", active);
              ex.transition();
            }
        }
      catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 500)); }
      ex.state(key);
      ex.trace();
      ex.sample(key);
      ex.end();
    }
}

template <int dim>
void history(Explorer &ex, const std::string &name, const Cfg &c, const std::vector<StepSym> &h)
{
  const std::string key = "dim=" + std::to_string(dim) + ";options=" + name + ";history=" + hist_str(h);
  if (!ex.begin(key)) return;
  try
    {
      Problem<dim> p(c, ex.workdir);
      const bool active = c.dec || c.gb == RTP::BoundaryConditionsAtGrainBoundaries::Microtraction;
      judge<dim>(ex, p, "initial state", active);
      double before = 0;
      int k = 0;
      for (auto &x : h)
        {
          const std::string w = "step " + std::to_string(++k);
          if (!p.step(x.inc * c.amp, x.dt)) { ex.note("steps_not_converged", 1); break; }
          judge<dim>(ex, p, w, active);
          const double mac = p.solver->get_macroscopic_damage();
          ex.note_max("largest_macroscopic_damage", mac);
          ex.check(mac >= before - 1e-12 && mac <= 1 + 1e-12, "bounds", w + ": macroscopic damage " + num(mac) + " after " + num(before));
          before = mac;
          ex.state(key.substr(0, key.find(";history")) + hist_str(std::vector<StepSym>(h.begin(), h.begin() + k)));
          ex.transition();
          p.accept();
        }
    }
  catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 500)); }
  ex.trace();
  ex.sample(key);
  ex.end();
}

int main(int argc, char **argv)
{
  Init init(argc, argv);
  Explorer ex(argc, argv);
  if (!getenv("VP_LOUD")) std::cout.setstate(std::ios::failbit);
  using B = RTP::BoundaryConditionsAtGrainBoundaries;
  auto all = [&](auto tag) {
    constexpr int dim = decltype(tag)::value;
    struct M { std::string n; std::vector<unsigned> m; int ny; };
    std::vector<M> ms = {{"single", {0, 0}, 1}, {"two", {0, 1}, 1}, {"reversed", {1, 0}, 1}, {"checker", {0, 1, 1, 0}, 2}};
    if (dim == 2 || !ex.quick)
      {
        ms.push_back({"three", {1, 2, 0}, 1});
        ms.push_back({"island", {0, 0, 1, 0, 0, 0}, 3});
        ms.push_back({"corner", {0, 0, 0, 1}, 2});
        ms.push_back({"triple", {0, 1, 2, 2}, 2});
      }
    for (auto &m : ms)
      for (int dec = 0; dec < 2; ++dec)
        for (int g = 0; g < 3; ++g)
          for (int sk = 0; sk < 3; ++sk)
            for (int deg = 1; deg <= 2; ++deg)
              {
                if ((deg == 2 && (sk || m.m.size() > 2)) || (dim == 3 && ex.quick && m.m.size() > 2 && (!dec || g || sk == 1))) continue;
                Cfg c;
                c.mats = m.m;
                c.ny = m.ny;
                c.dec = dec;
                c.gb = g == 0 ? B::Microfree : g == 1 ? B::Microhard : B::Microtraction;
                c.skewed = sk;
                c.pu = c.pg = deg;
                const std::string n = m.n + (dec ? "+decohesion" : "") + (g == 0 ? "" : g == 1 ? "+microhard" : "+microtraction") + (sk ? "+skew" + std::to_string(sk) : "") + (deg == 2 ? "+quadratic" : "");
                assignments<dim>(ex, n, c, m.m.size() > 2 ? (ex.quick ? 3 : dim == 2 ? 5 : 4) : 5);
                if (!admissible(c) || (dim == 3 && ex.quick && deg == 2)) continue;
                for (int md = 0; md < 2; ++md)
                  {
                    Cfg k = c;
                    if (md && !dec) continue;
                    if (md) { k.damage = RTP::DamageEvolutionModel::M1; }
                    for (auto &h : histories(std::vector<StepSym>{{6, 1}, {-4, 0.5}}, ex.quick ? (dim == 2 ? 2 : 1) : 3)) history<dim>(ex, n + (md ? "+M1" : ""), k, h);
                  }
              }
  };
  all(std::integral_constant<int, 2>());
  all(std::integral_constant<int, 3>());
  return ex.finish();
}
