HEAD = r'''
#include <iostream>
#include <cmath>
#include <deal.II/base/mpi.h>
#include <deal.II/base/tensor.h>
#define CHECK(c) do { if (!(c)) { std::cout << "FAILED: " #c << std::endl; return 1; } } while (0)
'''
SEEDS = [
dict(id="N01-upper-safeguard", property="N01",
  needs="a line search with at least two rejected trials whose cubic model has its minimum beyond half of the last step length",
  breaks="the third and later trial step lengths may exceed half of the previous trial (the safeguard uses the absolute bound 0.5)",
  edits=[("source/line_search.cc", "  else if (lambda > 0.5*old_lambda)\n    return 0.5*old_lambda;\n  else\n    return lambda;\n}\n",
          "  else if (lambda > 0.5)\n    return 0.5*old_lambda;\n  else\n    return lambda;\n}\n")],
  demo=HEAD + r'''
#include <gCP/line_search.h>
int main()
{
  for (double f1 : {1.05, 1.5, 2.0, 5.0, 20.0})
    for (double f2 : {0.9, 0.99, 1.0, 1.05, 1.4, 3.0})
      {
        gCP::RunTimeParameters::LineSearchParameters p;
        gCP::LineSearch ls(p);
        ls.reinit(1.0, 1, 1);
        double l1 = ls.get_lambda(f1, 1.0);
        CHECK(l1 >= 0.1 - 1e-12 && l1 <= 0.5 + 1e-12);
        double l2 = ls.get_lambda(f2, l1);
        CHECK(l2 >= 0.1 * l1 - 1e-12 && l2 <= 0.5 * l1 + 1e-12);
      }
  return 0;
}
'''),
dict(id="H01-reset-keeps-maximum", property="H01",
  needs="an update with a larger opening, a reset_values() call and then a store_current_values() without another update",
  breaks="a discarded trial leaves its maximum opening behind; once stored, the interface unloads from an opening that was never accepted",
  edits=[("source/gradient_crystal_plasticity/quadrature_point_history.cc",
   "  damage_variable                     = tmp_scalar_values[0];\n\n  max_effective_opening_displacement  = tmp_scalar_values[1];\n}",
   "  damage_variable                     = tmp_scalar_values[0];\n\n  max_effective_opening_displacement  =\n    std::max(max_effective_opening_displacement, tmp_scalar_values[1]);\n}")],
  demo=HEAD + r'''
#include <gCP/quadrature_point_history.h>
int main()
{
  gCP::InterfaceQuadraturePointHistory<2> h;
  gCP::RunTimeParameters::DamageEvolution d;
  gCP::RunTimeParameters::CohesiveLawParameters c;
  c.critical_opening_displacement = 1.0;
  h.init(d, c);
  h.store_current_values();
  h.update_values(0.5);
  h.store_current_values();
  h.update_values(2.0);
  h.reset_values();
  CHECK(std::abs(h.get_max_effective_opening_displacement() - 0.5) < 1e-14);
  h.store_current_values();
  h.update_values(0.1);
  CHECK(std::abs(h.get_max_effective_opening_displacement() - 0.5) < 1e-14);
  return 0;
}
'''),
dict(id="H02-latent-on-active-only", property="H02",
  needs="latent hardening with at least two slip systems of which one does not slip in the step while the other does",
  breaks="a slip system that does not slip itself no longer hardens by the slip of the other systems",
  edits=[("source/gradient_crystal_plasticity/quadrature_point_history.cc",
   "  for (unsigned int slip_id_alpha = 0;\n        slip_id_alpha < n_slips;\n        ++slip_id_alpha)\n  {\n    for (unsigned int slip_id_beta = 0;",
   "  for (unsigned int slip_id_alpha = 0;\n        slip_id_alpha < n_slips;\n        ++slip_id_alpha)\n  {\n    if (slips[slip_id_alpha][q_point] == old_slips[slip_id_alpha][q_point])\n      continue;\n\n    for (unsigned int slip_id_beta = 0;")],
  demo=HEAD + r'''
#include <gCP/quadrature_point_history.h>
int main()
{
  gCP::QuadraturePointHistory<2> h;
  gCP::RunTimeParameters::HardeningLaw p;
  p.flag_perfect_plasticity = false;
  p.initial_slip_resistance = 1.0;
  p.linear_hardening_modulus = 10.0;
  p.hardening_parameter = 1.4;
  h.init(p, 2, 1.0);
  h.store_current_values();
  std::vector<std::vector<double>> o{{0.1}, {0.2}}, n{{0.3}, {0.2}};
  h.update_values(0, n, o);
  CHECK(std::abs(h.get_slip_resistance(0) - (1.0 + 10.0 * 0.2)) < 1e-12);
  CHECK(std::abs(h.get_slip_resistance(1) - (1.0 + 14.0 * 0.2)) < 1e-12);
  return 0;
}
'''),
dict(id="C06-unload-compression-tangent", property="C06",
  needs="an opening with interpenetrating normal part and tangential sliding below the historical maximum (tangential to normal ratio different from one)",
  breaks="sliding under compression is given the isotropic identity tensor, the tangent no longer is the derivative of the traction",
  edits=[("source/constitutive_laws.cc",
   "  const dealii::SymmetricTensor<2,dim> effective_identity_tensor =\n    macaulay_brackets(\n      normal_opening_displacement /\n      std::abs(normal_opening_displacement)) *\n    normal_projector\n    +\n    tangential_to_normal_stiffness_ratio *\n    tangential_to_normal_stiffness_ratio *\n    tangential_projector;",
   "  const dealii::SymmetricTensor<2,dim> effective_identity_tensor =\n    macaulay_brackets(\n      normal_opening_displacement /\n      effective_opening_displacement) *\n    normal_projector\n    +\n    tangential_to_normal_stiffness_ratio *\n    tangential_to_normal_stiffness_ratio *\n    tangential_projector;")],
  demo=HEAD + r'''
#include <gCP/constitutive_laws.h>
int main()
{
  using namespace dealii;
  gCP::RunTimeParameters::CohesiveLawParameters c;
  c.critical_cohesive_traction = 10.0;
  c.critical_opening_displacement = 1.0;
  c.tangential_to_normal_stiffness_ratio = 0.8;
  gCP::ConstitutiveLaws::CohesiveLaw<2> law(c);
  Tensor<1,2> n, u;
  n[0] = 1.0;
  for (double a : {0.2, 0.4, -0.3})
    for (double b : {0.0, 0.3, -0.5})
      {
        if (a == 0 && b == 0) continue;
        u[0] = a; u[1] = b;
        auto J = law.get_jacobian(u, n, 2.0, 0.1, 1.0);
        for (int j = 0; j < 2; ++j)
          {
            Tensor<1,2> e; e[j] = 1e-6;
            auto d = (law.get_cohesive_traction(u + e, n, 2.0, 0.1, 1.0) - law.get_cohesive_traction(u - e, n, 2.0, 0.1, 1.0)) / 2e-6;
            for (int i = 0; i < 2; ++i) CHECK(std::abs(d[i] - J[i][j]) < 1e-5 * 30);
          }
      }
  return 0;
}
'''),
dict(id="F02-left-wins", property="F02",
  needs="a user constraint on an unknown that the field already constrains (set a second time, e.g. the increment constraints after the load constraints)",
  breaks="the field's earlier constraint wins over the one the user sets, so that a changed prescribed value is silently ignored",
  edits=[("source/fe_field.cc",
   "  this->affine_constraints.merge(\n      affine_constraints,\n      dealii::AffineConstraints<double>::MergeConflictBehavior::right_object_wins);",
   "  this->affine_constraints.merge(\n      affine_constraints,\n      dealii::AffineConstraints<double>::MergeConflictBehavior::left_object_wins);")],
  demo=HEAD + r'''
#include <gCP/fe_field.h>
#include <deal.II/grid/grid_generator.h>
int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize m(argc, argv, 1);
  dealii::Triangulation<2> t;
  dealii::GridGenerator::subdivided_hyper_cube(t, 2);
  for (auto &c : t.active_cell_iterators()) c->set_material_id(0);
  gCP::FEField<2> f(t, 1, 1, false, true);
  f.setup_extractors(1, 1);
  for (auto &c : f.get_dof_handler().active_cell_iterators()) c->set_active_fe_index(0);
  f.setup_dofs();
  for (double v : {1.0, 2.0})
    {
      dealii::AffineConstraints<double> a;
      a.reinit(f.get_locally_relevant_dofs());
      a.add_line(3);
      a.set_inhomogeneity(3, v);
      a.close();
      f.set_affine_constraints(a);
      CHECK(f.get_affine_constraints().get_inhomogeneity(3) == v);
    }
  return 0;
}
'''),
dict(id="C05-out-of-plane-3d", property="C05",
  needs="a three-dimensional grain boundary whose two crystals have differently oriented slip systems and a slip normal oblique to the boundary",
  breaks="one factor of the 3-D inter-grain modulus is built from the current instead of the neighbouring crystal's slip normal",
  edits=[("source/constitutive_laws.cc", "@@C05OLD@@", "@@C05NEW@@")], demo=""),
dict(id="O01-density-by-sum", property="O01",
  needs="two or more slip systems with slip gradients, full (not light) output",
  breaks="the equivalent dislocation density is the absolute sum instead of the root of the sum of squares of the systems' densities", edits=[], demo=""),
]
SEEDS = SEEDS[:5]
