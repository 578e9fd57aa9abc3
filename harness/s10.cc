// S10: no load history makes the solver read or write memory it does not own, or read values nobody wrote.
//  memory        : every history with the address and undefined-behaviour sanitisers compiled into the code
//  uninitialised : every history twice, with fresh and freed heap memory filled with two different patterns;
//                  the outcomes must agree bit by bit
#include "solver_options.h"
#include <malloc.h>
#include <cstring>
using namespace vp;

template <int dim>
std::vector<double> history(Explorer &ex, const Cfg &c, const std::vector<StepSym> &h, std::string &outcome)
{
  std::vector<double> r;
  Problem<dim> p(c, ex.workdir);
  for (auto &x : h)
    {
      const bool ok = p.step(x.inc * c.amp, x.dt);
      outcome += ok ? "+" : p.not_converged() ? "-" : "!" + p.error;
      if (!ok) break;
      for (double v : p.values(p.field->solution)) r.push_back(v);
      for (auto &cell : p.field->get_dof_handler().active_cell_iterators())
        {
          for (auto &q : p.solver->quadrature_point_history.get_data(cell))
            for (double g : q->get_slip_resistances()) r.push_back(g);
          if (c.dec)
            for (unsigned f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; ++f)
              if (!cell->at_boundary(f) && cell->neighbor(f)->material_id() != cell->material_id())
                for (auto &q : p.solver->interface_quadrature_point_history.get_data(cell->id(), cell->neighbor(f)->id()))
                  {
                    r.push_back(q->get_damage_variable());
                    r.push_back(q->get_max_effective_opening_displacement());
                    r.push_back(q->get_effective_opening_displacement());
                    r.push_back(q->get_old_effective_opening_displacement());
                    r.push_back(q->get_effective_cohesive_traction());
                  }
        }
      p.trial = p.ref;
      p.accept();
      ex.transition();
    }
  return r;
}

template <int dim>
void run(Explorer &ex, const std::string &name, const Cfg &c, const std::vector<StepSym> &h, bool fill)
{
  const std::string key = "dim=" + std::to_string(dim) + ";options=" + name + ";history=" + hist_str(h);
  if (!ex.begin(key)) return;
  try
    {
      std::string o;
      if (!fill)
        history<dim>(ex, c, h, o);
      else
        {
          std::string o2;
          mallopt(M_PERTURB, 0x80);
          const auto a = history<dim>(ex, c, h, o);
          mallopt(M_PERTURB, 0x21);
          const auto b = history<dim>(ex, c, h, o2);
          mallopt(M_PERTURB, 0);
          ex.check(o == o2, "outcome", "the steps' outcomes are " + o + " or " + o2 + ", depending on what unwritten memory contains");
          if (ex.check(a.size() == b.size(), "values", "the number of values depends on unwritten memory"))
            for (size_t i = 0; i < a.size(); ++i)
              if (!ex.check(std::memcmp(&a[i], &b[i], sizeof(double)) == 0, "values", "value " + std::to_string(i) + " is " + num(a[i]) + " or " + num(b[i]) + ", depending on what unwritten memory contains")) break;
        }
      ex.note(o.find('!') != std::string::npos ? "exceptions" : o.find('-') != std::string::npos ? "not_converged" : "completed", 1);
      if (o.find('!') != std::string::npos) ex.fail("exception", o);
    }
  catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
  ex.state(key);
  ex.trace();
  ex.sample(key);
  ex.end();
}

int main(int argc, char **argv)
{
  Init init(argc, argv);
  Explorer ex(argc, argv);
  bool fill = false;
  for (int i = 1; i + 1 < argc; ++i)
    if (std::string(argv[i]) == "--mode") fill = std::string(argv[i + 1]) == "fill";
  if (!getenv("VP_LOUD")) std::cout.setstate(std::ios::failbit);
  many_slips = true;
  const std::vector<StepSym> small = {{1, 1}, {-1.5, 0.5}};
  auto all = [&](auto tag) {
    constexpr int dim = decltype(tag)::value;
    for (auto &b : bases(dim))
      for_each_config(dim, ex.quick ? (dim == 2 ? 1 : 0) : (dim == 2 ? 2 : 1), [&](const std::string &n, const Cfg &c, int d) {
        if (ex.quick && d == 1 && c.ns == 12 && b.name == "MTDEC:" && !fill) return;
        for (auto &h : histories(small, ex.quick ? 2 : 3)) run<dim>(ex, b.name + n, c, h, fill);
      }, nullptr, b.c);
  };
  all(std::integral_constant<int, 2>());
  all(std::integral_constant<int, 3>());
  return ex.finish();
}
