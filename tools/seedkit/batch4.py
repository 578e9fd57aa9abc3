import os, sys
K = os.path.dirname(os.path.abspath(sys.argv[1]))
H = os.path.dirname(os.path.dirname(K)) + "/harness/"
SH = open(K + "/demo.sh").read().replace('"$here/demo.cc"', '-I"$here" -fno-access-control "$here/demo.cc"')
FILES = {n: open(H + n).read() for n in ("vp.h", "gcp_util.h", "field_util.h", "solver_util.h")}
PRE = r'''
#include "solver_util.h"
using namespace vp;
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)
using GB = RTP::BoundaryConditionsAtGrainBoundaries;
// largest unbalanced force of the solution of the last step
template <int dim> double unbalanced(Problem<dim> &p)
{
  auto R = p.restricted(p.residual(p.values(p.field->solution), p.time->get_next_time()));
  double m = 0;
  for (double v : R) m = std::max(m, std::fabs(v));
  return m;
}
int main(int argc, char **argv)
{
  Init init(argc, argv);
  std::cout.setstate(std::ios::failbit);
'''
A = "source/gradient_crystal_plasticity/assembly.cc"
S = "source/gradient_crystal_plasticity/solve.cc"
AS = "source/gradient_crystal_plasticity/active_set.cc"
Q = "source/gradient_crystal_plasticity/quadrature_point_history.cc"
def solver(id, property, needs, breaks, edits, demo):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo + "  return 0;\n}\n", demo_sh=SH, files=FILES)
SEEDS = [
solver("S01-opening-of-the-last-step", "S01",
  "decohesion and a history of at least two steps that opens the interface further",
  "the cohesive traction of a step is that of the opening at the end of the step before: the accepted solution is not in equilibrium",
  [(A, """          local_interface_quadrature_point_history[face_q_point]->store_effective_opening_displacement(
            scratch.neighbor_cell_displacement_values[face_q_point],
            scratch.current_cell_displacement_values[face_q_point],""",
       """          local_interface_quadrature_point_history[face_q_point]->store_effective_opening_displacement(
            scratch.neighbor_cell_old_displacement_values[face_q_point],
            scratch.current_cell_old_displacement_values[face_q_point],""")],
  r'''
  for (double second : {1.0, -0.5, 2.0})
    {
      Cfg c;
      c.mats = {0, 1};
      c.dec = true;
      c.load_dir = 0;
      Problem<2> p(c, ".");
      for (double inc : {1.0, second, 1.0})
        {
          CHECK(p.step(inc * c.amp, 1.0));
          CHECK(unbalanced(p) < 1e-7);
          p.accept();
        }
    }
'''),
solver("S02-coupling-of-the-other-law", "S02",
  "microtraction with damage coupled to the microtraction but not to the cohesive traction, at a state with damage",
  "the interface part of the tangent is degraded by the switch of the other law",
  [(A, """                      parameters.constitutive_laws_parameters.damage_evolution_parameters.flag_couple_microtraction_to_damage) *
                    scratch.inter_gateaux""",
       """                      parameters.constitutive_laws_parameters.damage_evolution_parameters.flag_couple_macrotraction_to_damage) *
                    scratch.inter_gateaux""")],
  r'''
  for (bool macro : {false, true})
    {
      Cfg c;
      c.mats = {0, 1};
      c.dec = true;
      c.gb = GB::Microtraction;
      c.couple_micro = true;
      c.couple_macro = macro;
      Problem<2> p(c, ".");
      CHECK(trial_state(p, 2));
      auto &s = *p.solver;
      s.reset_and_update_internal_variables();
      s.assemble_residual();
      s.assemble_jacobian();
      const double t = p.time->get_next_time();
      const auto x = p.values(s.trial_solution);
      p.residual(x, t);
      Problem<2>::Star star{x, p.trial};
      auto &con = s.internal_newton_method_constraints;
      double dam = 0;
      for (auto &f : p.trial.f) for (auto &q : f.second) dam = std::max(dam, q.dam);
      CHECK(dam > 0.01);
      for (unsigned j = 0; j < x.size(); ++j)
        {
          if (con.is_constrained(j)) continue;
          auto up = x, dn = x;
          const double h = 1e-6;
          up[j] += h;
          dn[j] -= h;
          const auto a = p.restricted(p.residual(up, t, &star)), b = p.restricted(p.residual(dn, t, &star));
          for (unsigned i = 0; i < x.size(); ++i)
            if (!con.is_constrained(i)) CHECK(std::fabs((a[i] - b[i]) / (2 * h) - s.jacobian.el(i, j)) < 1e-3);
        }
    }
'''),
solver("S08-first-interface-of-a-cell", "S08",
  "a cell with two interfaces, more than one step",
  "the state of the second interface of a cell is not stored at the start of a step, so that the step starts from the state before",
  [(A, """                  face_q_point < n_face_q_points; ++face_q_point)
              local_interface_quadrature_point_history[face_q_point]->store_current_values();
          }""",
       """                  face_q_point < n_face_q_points; ++face_q_point)
              local_interface_quadrature_point_history[face_q_point]->store_current_values();

            break;
          }""")],
  r'''
  for (auto damage : {RTP::DamageEvolutionModel::OrtizEtAl, RTP::DamageEvolutionModel::M1})
    {
      Cfg c;
      c.mats = {0, 1, 1, 0};
      c.ny = 2;
      c.dec = true;
      c.damage = damage;
      c.couple_macro = true;
      c.load_dir = 0;
      Problem<2> p(c, ".");
      for (double inc : {1.0, 1.0, -1.0})
        {
          CHECK(p.step(inc * c.amp, 1.0));
          p.residual(p.values(p.field->solution), p.time->get_next_time());
          for (auto &cell : p.field->get_dof_handler().active_cell_iterators())
            for (unsigned f = 0; f < 4; ++f)
              {
                if (cell->at_boundary(f) || cell->neighbor(f)->material_id() == cell->material_id()) continue;
                auto h = p.solver->interface_quadrature_point_history.get_data(cell->id(), cell->neighbor(f)->id());
                auto &r = p.trial.f[p.key(cell->id(), cell->neighbor(f)->id())];
                for (unsigned q = 0; q < h.size(); ++q)
                  {
                    CHECK(std::fabs(h[q]->get_damage_variable() - r[q].dam) < 1e-6);
                    CHECK(std::fabs(h[q]->get_max_effective_opening_displacement() - r[q].max) < 1e-8);
                  }
              }
          p.accept();
        }
    }
'''),
solver("S09-interfaces-count-alike", "S09",
  "interfaces of different size that are damaged differently",
  "the average damage weighs every interface the same, whatever its area",
  [(A, """          domain_integral_damage_variable +=
            cell_integral_damage_variable;

          domain_volume += cell_volume;""",
       """          domain_integral_damage_variable +=
            cell_integral_damage_variable / cell_volume;

          domain_volume += 1.0;""")],
  r'''
  Cfg c;
  c.mats = {0, 0, 0, 1};
  c.ny = 2;
  c.h = {{1.0, 0.6, 1.0}};
  c.dec = true;
  Problem<2> p(c, ".");
  for (double inc : {1.0, 1.0})
    {
      CHECK(p.step(inc * c.amp, 1.0));
      p.residual(p.values(p.field->solution), p.time->get_next_time());
      p.accept();
    }
  double a = 0, b = 0;
  const double w[] = {5. / 18, 8. / 18, 5. / 18};
  for (auto &cell : p.tria->active_cell_iterators())
    for (unsigned f = 0; f < 4; ++f)
      {
        if (cell->at_boundary(f) || cell->neighbor(f)->material_id() == cell->material_id()) continue;
        auto h = p.solver->interface_quadrature_point_history.get_data(cell->id(), cell->neighbor(f)->id());
        for (unsigned q = 0; q < h.size(); ++q)
          {
            a += w[q] * cell->face(f)->measure() * h[q]->get_damage_variable();
            b += w[q] * cell->face(f)->measure();
          }
      }
  CHECK(b > 0 && a > 0);
  CHECK(std::fabs(p.solver->get_macroscopic_damage() - a / b) < 1e-10);
'''),
]
