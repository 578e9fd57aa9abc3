// A01: the simple-shear application's mesh and constraints, read off the field at every call of the solver while the
// application runs its load steps; compared with the constraints derived from the geometry alone.
#include "gcp_util.h"
#define main gcp_application_main
#include "applications/simple_shear.cc"
#undef main
using namespace vp;

template <int dim>
struct Watch
{
  static gCP::FEField<dim> *field;
  static std::function<void()> solve;
};
template <int dim> gCP::FEField<dim> *Watch<dim>::field = nullptr;
template <int dim> std::function<void()> Watch<dim>::solve;

// The linker sends the application's calls of these two public functions here.
#define HOOK(d)                                                                                                        \
  extern "C" void __real__ZN3gCP7FEFieldILi##d##EE10setup_dofsEv(gCP::FEField<d> *);                                   \
  extern "C" void __wrap__ZN3gCP7FEFieldILi##d##EE10setup_dofsEv(gCP::FEField<d> *f)                                   \
  {                                                                                                                    \
    Watch<d>::field = f;                                                                                               \
    __real__ZN3gCP7FEFieldILi##d##EE10setup_dofsEv(f);                                                                 \
  }                                                                                                                    \
  extern "C" void __wrap__ZN3gCP31GradientCrystalPlasticitySolverILi##d##EE22solve_nonlinear_systemEb(                 \
    gCP::GradientCrystalPlasticitySolver<d> *, bool)                                                                   \
  {                                                                                                                    \
    Watch<d>::solve();                                                                                                 \
  }
HOOK(2)
HOOK(3)

static std::string line(const std::string &path, const std::string &name, const std::string &value)
{
  std::string s, e, p;
  std::istringstream in(path);
  while (std::getline(in, p, '/')) { s += "subsection " + p + "\n"; e += "end\n"; }
  return s + "set " + name + " = " + value + "\n" + e;
}

struct Case
{
  int dim = 2, pu = 1, pg = 1, nc = 1, ns = 1, ny = 0, ref = 0, map = 1;
  bool dec = false;
  std::string gb = "microfree";
  double height = 1;
  bool cyclic = false, dimless = false;
  int per = 1; // elements per crystal
  std::string str() const
  {
    return "dim=" + std::to_string(dim) + ";degrees=" + std::to_string(pu) + "," + std::to_string(pg) + ";crystals=" + std::to_string(nc) + ";slips=" + std::to_string(ns) +
           ";elements=" + std::to_string(nc * per) + ";refinements=" + std::to_string(ref) + ";" + gb + (dec ? ";decohesion" : "") + ";height=" + shortnum(height) +
           (cyclic ? ";cyclic" : "") + (dimless ? ";dimensionless" : "") + (map > 1 ? ";mapping=2" : "");
  }
};

struct Stop {};

template <int dim>
void run(Explorer &ex, const Case &c)
{
  const std::string key = c.str();
  if (!ex.begin(key)) return;
  const std::string out = ex.workdir + "/out/";
  try
    {
      std::vector<Row> angles, d, n;
      for (int i = 0; i < c.nc; ++i) angles.push_back(dim == 2 ? Row{17. + 31 * i} : Row{20. + 30 * i, 40. - 15 * i, 5.});
      if (dim == 2) { d = {{1, 0}, {1, 2}}; n = {{0, 1}, {-2, 1}}; }
      else { d = {{1, 1, 0}, {0, 1, -1}}; n = {{1, -1, 1}, {1, 1, 1}}; }
      d.resize(c.ns);
      n.resize(c.ns);
      write_rows(ex.workdir + "/angles.txt", angles);
      write_rows(ex.workdir + "/directions.txt", d);
      write_rows(ex.workdir + "/normals.txt", n);
      const std::string S = "1. Spatial discretization parameters", T = "2. Temporal discretization parameters/Simple loading", V = "6. Solver parameters";
      const double umax = c.dimless ? 1. : 0.02;
      std::string p = line(S, "FE's polynomial degree - Displacements", std::to_string(c.pu)) + line(S, "FE's polynomial degree - Slips", std::to_string(c.pg)) +
                      line(S, "Number of global refinements", std::to_string(c.ref)) + line(S, "Spatial dimension", std::to_string(dim)) +
                      line(S, "Mapping - Polynomial degree", std::to_string(c.map)) +
                      line(S + "/Problem specific parameters", "Height of the strip", num(c.height)) +
                      line(S + "/Problem specific parameters", "Number of elements in y-direction", std::to_string(c.nc * c.per)) +
                      line(S + "/Problem specific parameters", "Number of equally sized crystals in y-direction", std::to_string(c.nc)) +
                      line(T, "Loading type", c.cyclic ? "cyclic" : "monotonic") + line(T, "Maximum load", num(umax)) + line(T, "Minimum load", num(c.cyclic ? 0.25 * umax : 0.)) +
                      line(T + "/Monotonic load parameters", "Number of steps during monotonic load", "3") +
                      line(T + "/Cyclic load parameters", "Number of steps during a quarter cycle", "1") +
                      line(T + "/Cyclic load parameters", "Number of steps during un- and loading phase", "2") +
                      line(T + "/Cyclic load parameters", "Skip unloading phase", "false") +
                      line("3. Input parameters", "Euler angles path name", ex.workdir + "/angles") +
                      line("3. Input parameters", "Slip directions path name", ex.workdir + "/directions") +
                      line("3. Input parameters", "Slip normals path name", ex.workdir + "/normals") +
                      line("4. Output parameters", "Graphical output directory", out) + line("4. Output parameters", "Graphical output frequency", "1000") +
                      line(V, "Allow decohesion at grain boundaries", c.dec ? "true" : "false") + line(V, "Boundary conditions at grain boundaries", c.gb);
      double u0 = 1;
      if (c.dimless)
        {
          const std::string D = V + "/Dimensionless formulation parameters";
          u0 = 0.25;
          p += line(D, "Solve the dimensionless problem", "true") + line(D + "/Reference parameters", "Reference displacement value", num(u0));
        }
      else p += line(V + "/Dimensionless formulation parameters", "Solve the dimensionless problem", "false");
      { std::ofstream o(ex.workdir + "/p.prm"); o << p; }
      gCP::RunTimeParameters::InfiniteStripProblem prm(ex.workdir + "/p.prm");
      // programme: monotonic 3 steps to t=1; cyclic 2 steps, 4 quarter cycles, 2 steps (unit durations)
      std::vector<double> loads;
      const double amp = umax * (c.cyclic ? 0.375 : 1), mean = umax * 0.625;
      if (!c.cyclic) for (int i = 1; i <= 3; ++i) loads.push_back(amp * i / 3);
      else
        {
          for (int i = 1; i <= 2; ++i) loads.push_back(mean * i / 2);
          for (int i = 1; i <= 4; ++i) loads.push_back(mean + amp * (i % 2 ? 2 - i : 0));
          for (int i = 1; i <= 2; ++i) loads.push_back(mean * (2 - i) / 2);
        }
      const double w = 1. / (c.nc * c.per);
      unsigned step = 0;
      gCP::SimpleShearProblem<dim> problem(prm);
      Watch<dim>::solve = [&]() {
        auto &f = *Watch<dim>::field;
        if (step >= loads.size()) { ex.fail("steps", "a step beyond the end of the loading programme"); throw Stop(); }
        const double top = loads[step] * c.height / u0, scale = umax * c.height / u0;
        const std::string W = "step " + std::to_string(step + 1) + ": ";
        // expected class of every unknown, from the geometry
        struct Dof { bool fixed = false, slip = false; double value = 0; std::string cls, name; int seen = 0; };
        std::vector<Dof> dofs(f.n_dofs());
        const unsigned nu = c.dec ? dim * c.nc : dim;
        std::vector<dealii::types::global_dof_index> idx;
        unsigned cells = 0;
        double volume = 0;
        for (auto &cell : f.get_dof_handler().active_cell_iterators())
          {
            ++cells;
            volume += cell->measure();
            const double y = cell->center()[1];
            const unsigned crystal = std::min<int>(c.nc - 1, (int)std::floor(y / c.height * c.nc));
            ex.check(cell->material_id() == crystal, "material", W + "cell at y=" + num(y) + " belongs to crystal " + std::to_string(cell->material_id()));
            ex.check(cell->active_fe_index() == crystal, "element-index", W + "cell at y=" + num(y) + " has element " + std::to_string(cell->active_fe_index()));
            const auto &fe = cell->get_fe();
            idx.resize(fe.n_dofs_per_cell());
            cell->get_dof_indices(idx);
            for (unsigned i = 0; i < idx.size(); ++i)
              {
                const unsigned comp = fe.system_to_component_index(i).first;
                Dof e;
                e.slip = comp >= nu;
                dealii::Point<dim> u = fe.unit_support_point(i), x;
                for (int k = 0; k < dim; ++k) x[k] = cell->vertex(0)[k] + u[k] * (cell->vertex((1 << dim) - 1)[k] - cell->vertex(0)[k]);
                auto grid = [](double a) { return std::to_string(std::llround(a * 1e7)); };
                auto at = [&](double a) { return std::fabs(a - w) < 1e-9 ? 0. : a; };
                const double yy = x[1];
                e.name = (e.slip ? "slip " + std::to_string((comp - nu) % c.ns) + " of crystal " + std::to_string(crystal) : "displacement " + std::to_string(comp % dim) + (c.dec ? " of crystal " + std::to_string(crystal) : "")) + " at (";
                for (int k = 0; k < dim; ++k) e.name += (k ? "," : "") + shortnum(x[k]);
                e.name += ")";
                e.cls = std::to_string(comp) + "|" + grid(at(x[0])) + "|" + grid(yy) + (dim == 3 ? "|" + grid(at(x[dim - 1])) : "");
                const bool low = std::fabs(yy) < 1e-9, high = std::fabs(yy - c.height) < 1e-9;
                if (e.slip)
                  {
                    bool gb = false;
                    for (int k = 1; k < c.nc; ++k) gb = gb || std::fabs(yy - c.height * k / c.nc) < 1e-9;
                    e.fixed = low || high || (c.gb == "microhard" && gb);
                    ex.check((comp - nu) / c.ns == crystal, "layout", W + e.name + " belongs to component " + std::to_string(comp));
                  }
                else
                  {
                    e.fixed = low || high;
                    if (high && comp % dim == 0) e.value = top;
                    ex.check(!c.dec || comp / dim == crystal, "layout", W + e.name + " belongs to component " + std::to_string(comp));
                  }
                auto &o = dofs[idx[i]];
                if (!o.seen) o = e;
                else ex.check(o.cls == e.cls, "layout", W + e.name + " shares its unknown with " + o.name);
                o.seen = 1;
              }
          }
        const unsigned expect = c.nc * c.per * std::pow(1 << dim, c.ref);
        ex.check(cells == expect, "cells", W + std::to_string(cells) + " cells instead of " + std::to_string(expect));
        ex.close(volume, c.height * w * (dim == 3 ? w : 1), 1, 1e-12, "volume", W);
        for (int which = 0; which < 2; ++which)
          {
            const auto &con = which ? f.get_newton_method_constraints() : f.get_affine_constraints();
            const std::string N = W + (which ? "Newton update: " : "solution: ");
            std::map<std::string, std::vector<unsigned>> classes;
            unsigned lines = 0;
            for (unsigned i = 0; i < dofs.size(); ++i)
              {
                auto &e = dofs[i];
                if (!e.seen) { ex.fail("layout", N + "unknown " + std::to_string(i) + " belongs to no cell"); continue; }
                lines += con.is_constrained(i);
                if (e.fixed)
                  {
                    if (!ex.check(con.is_constrained(i), e.slip ? "slip-not-fixed" : "displacement-not-fixed", N + e.name + " is not constrained")) continue;
                    ex.check(con.get_constraint_entries(i)->empty(), "fixed-but-tied", N + e.name + " is tied to another unknown");
                    if (which) ex.check(con.get_inhomogeneity(i) == 0., "inhomogeneity", N + e.name + " is not kept: " + num(con.get_inhomogeneity(i)));
                    else ex.close(con.get_inhomogeneity(i), e.value, scale, 1e-12, "boundary-value", N + e.name);
                  }
                else classes[e.cls].push_back(i);
              }
            ex.check(lines == con.n_constraints(), "other-constraints", N + "constraints of unknowns outside the field");
            for (auto &k : classes)
              {
                int masters = 0;
                for (auto i : k.second) if (!con.is_constrained(i)) ++masters;
                const auto &e = dofs[k.second[0]];
                if (!ex.check(masters == 1, masters ? "not-periodic" : (e.slip ? "slip-constrained" : "displacement-constrained"), N + e.name + (masters ? " is not tied to its periodic image: " : " must be free: ") + std::to_string(masters) + " of " + std::to_string(k.second.size()) + " images are free")) continue;
                for (auto i : k.second)
                  if (con.is_constrained(i))
                    {
                      const auto &en = *con.get_constraint_entries(i);
                      ex.check(en.size() == 1 && en[0].second == 1. && con.get_inhomogeneity(i) == 0. && dofs[en[0].first].cls == k.first && !con.is_constrained(en[0].first), "periodic-tie", N + dofs[i].name + " is tied to " + (en.empty() ? "nothing" : dofs[en[0].first].name));
                    }
                if (k.second.size() > 1) ex.note("periodic_classes", 1);
              }
            ex.note(which ? "newton_constraints" : "solution_constraints", lines);
          }
        // the state a converged step would leave: some field that fulfils the conditions
        dealii::LinearAlgebraTrilinos::MPI::BlockVector v;
        v.reinit(f.distributed_vector);
        v = 0.;
        f.get_affine_constraints().distribute(v);
        f.solution = v;
        ex.state(key + "|" + std::to_string(step));
        ex.transition();
        ++step;
      };
      problem.run();
      ex.check(step == loads.size(), "steps", std::to_string(step) + " steps instead of " + std::to_string(loads.size()));
    }
  catch (Stop &) {}
  catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
  std::filesystem::remove_all(out);
  ex.trace();
  ex.sample(key);
  ex.end();
}

int main(int argc, char **argv)
{
  Init init(argc, argv);
  Explorer ex(argc, argv);
  if (!getenv("VP_LOUD")) std::cout.setstate(std::ios::failbit);
  auto go = [&](const Case &c) { c.dim == 2 ? run<2>(ex, c) : run<3>(ex, c); };
  const int top = ex.quick ? 2 : 3;
  for (int dim = 2; dim <= 3; ++dim)
    for (int pu = 1; pu <= 3; ++pu)
      for (int pg = 1; pg <= 3; ++pg)
        for (int nc = 1; nc <= 3; ++nc)
          for (int ns = 1; ns <= 2; ++ns)
            for (int dec = 0; dec < 2; ++dec)
              for (const char *gb : {"microfree", "microhard", "microtraction"})
                for (int per = 1; per <= top; ++per)
                  for (int ref = 0; ref < (ex.quick ? 2 : 3); ++ref)
                    for (int v = 0; v < 5; ++v)
                      {
                        Case c;
                        c.dim = dim; c.pu = pu; c.pg = pg; c.nc = nc; c.ns = ns; c.dec = dec; c.gb = gb; c.per = per; c.ref = ref;
                        if (dim == 3 && ex.quick && (ref || (per > 1 && nc > 2) || (pu + pg > 4 && (per > 1 || ns > 1)))) continue;
                        if (dim == 3 && ref > 1) continue;
                        if (dim == 3 && ref && per * nc * std::max(pu, pg) > 6) continue;
                        if (ref && v && (ex.quick || dim == 3)) continue;
                        if (v && (per > 1 || (ex.quick && dim == 3 && (pu > 2 || pg > 2)))) continue;
                        if (v == 1) c.height = 2.5;
                        if (v == 2) c.cyclic = true;
                        if (v == 3)
                          {
                            if (dec || c.gb == "microtraction") continue; // no dimensionless form of these
                            c.dimless = true;
                            c.height = 0.5;
                          }
                        if (v == 4) c.map = 2;
                        go(c);
                      }
  return ex.finish();
}
