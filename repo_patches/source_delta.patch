From d5d0c08b5779b894999f90d41ee7b1005fd08329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 01/48] fix: line search accepts a trial meeting the descent
 condition with equality

With a zero initial residual the strict inequality could never hold, so an
exact solution was rejected and the quadratic step length became 0/0.
---
 include/gCP/line_search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gCP/line_search.h b/include/gCP/line_search.h
index 65a1b36..1d1a9a8 100644
--- a/include/gCP/line_search.h
+++ b/include/gCP/line_search.h
@@ -102,7 +102,7 @@ namespace gCP
         std::cout << "Second conditions not fulfilled" << std::endl;
       }*/
 
-      return (trial_scalar_function_value <
+      return (trial_scalar_function_value <=
               initial_scalar_function_value +
                   alpha * lambda * descent_direction);
     }
-- 
2.43.0


From 15cb58c580f1192f4f9636bdae82d5bee79e33dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 02/48] fix: cubic backtracking of the line search is defined
 for degenerate cubics

A vanishing leading coefficient or a cubic without a minimum (possible for
the admissible parameters alpha >= 1/4) gave a NaN step length.
---
 source/line_search.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/source/line_search.cc b/source/line_search.cc
index 98221e4..47da56a 100644
--- a/source/line_search.cc
+++ b/source/line_search.cc
@@ -150,10 +150,20 @@ double LineSearch::cubic_backtracking()
 
   coefficients *= factor;
 
-  double lambda = (-coefficients[1] +
-                  std::sqrt(coefficients[1]*coefficients[1] -
-                            3.0 * coefficients[0] *descent_direction)) /
-                  (3. * coefficients[0]);
+  const double discriminant = coefficients[1]*coefficients[1] -
+                              3.0 * coefficients[0] *descent_direction;
+
+  double lambda = 0.0;
+
+  // If the cubic degenerates to a parabola or has no minimum, the
+  // expression for the root of its derivative is not defined
+  if (coefficients[0] == 0.0)
+    lambda = -descent_direction / (2.0 * coefficients[1]);
+  else if (discriminant < 0.0)
+    lambda = 0.5*old_lambda;
+  else
+    lambda = (-coefficients[1] + std::sqrt(discriminant)) /
+             (3. * coefficients[0]);
 
   if (lambda < 0.1*old_lambda)
     return 0.1*old_lambda;
-- 
2.43.0


From 28ce7c49738210bd66e132c3acfaa9f8e0ccd973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 03/48] fix: no interface damage evolution below the endurance
 limit

A thermodynamic force smaller than the endurance limit healed the interface
and could drive the damage variable below zero.
---
 source/gradient_crystal_plasticity/quadrature_point_history.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/quadrature_point_history.cc b/source/gradient_crystal_plasticity/quadrature_point_history.cc
index e80c5f6..4cfafda 100644
--- a/source/gradient_crystal_plasticity/quadrature_point_history.cc
+++ b/source/gradient_crystal_plasticity/quadrature_point_history.cc
@@ -170,7 +170,7 @@ void InterfaceQuadraturePointHistory<dim>::update_values(
                       old_effective_opening_displacement) *
     std::pow(1.0 - damage_variable + damage_decay_constant,
      damage_decay_exponent) *
-    (thermodynamic_force - endurance_limit);
+    macaulay_brackets(thermodynamic_force - endurance_limit);
 
   if (damage_variable > 1.0)
     damage_variable = 1.0;
-- 
2.43.0


From 9c389007cde59686fb40c834549c14fa87c7d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 04/48] fix: penetration is not an opening in the stored
 effective opening displacement

---
 .../quadrature_point_history.cc                           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/gradient_crystal_plasticity/quadrature_point_history.cc b/source/gradient_crystal_plasticity/quadrature_point_history.cc
index 4cfafda..2fcc1bf 100644
--- a/source/gradient_crystal_plasticity/quadrature_point_history.cc
+++ b/source/gradient_crystal_plasticity/quadrature_point_history.cc
@@ -185,8 +185,8 @@ void InterfaceQuadraturePointHistory<dim>::update_values(
 
 template <int dim>
 void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
-  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> neighbor_cell_displacement,
+  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> normal_vector)
 {
   /*if (flag_values_were_updated)
@@ -206,7 +206,7 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
   // Compute normal and tangential components
   double normal_opening_displacement =
-    (normal_projector * opening_displacement).norm();
+    normal_vector * opening_displacement;
 
   double tangential_opening_displacement =
     (tangential_projector * opening_displacement).norm();
@@ -227,8 +227,8 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
 template <int dim>
 void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
-  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> neighbor_cell_displacement,
+  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> normal_vector,
   const double                effective_cohesive_traction)
 {
@@ -249,7 +249,7 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
   // Compute normal and tangential components
   double normal_opening_displacement =
-    (normal_projector * opening_displacement).norm();
+    normal_vector * opening_displacement;
 
   double tangential_opening_displacement =
     (tangential_projector * opening_displacement).norm();
-- 
2.43.0


From 4734812b1e1b0489e3f00be589e9d98eb7844f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 05/48] fix: vectorial microstress is finite for defect energy
 indices below two

---
 include/gCP/constitutive_laws.h |  2 ++
 source/constitutive_laws.cc     | 49 ++++++++++++++++++++++-----------
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/include/gCP/constitutive_laws.h b/include/gCP/constitutive_laws.h
index 1058955..b22fa12 100644
--- a/include/gCP/constitutive_laws.h
+++ b/include/gCP/constitutive_laws.h
@@ -349,6 +349,8 @@ private:
 
   const double                                defect_energy_index;
 
+  const double                                regularization_parameter;
+
   double                                      factor;
 
   std::vector<std::vector<dealii::SymmetricTensor<2,dim>>>
diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index 77f2c60..f1d0f53 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -582,6 +582,7 @@ crystals_data(crystals_data),
 energetic_length_scale(parameters.energetic_length_scale),
 initial_slip_resistance(parameters.initial_slip_resistance),
 defect_energy_index(parameters.defect_energy_index),
+regularization_parameter(parameters.regularization_parameter),
 flag_init_was_called(false)
 {}
 
@@ -680,19 +681,26 @@ get_vectorial_microstress(
               dealii::ExcMessage("The VectorialMicrostressLaw<dim> "
                                  "instance has not been initialized."));
 
+  // A vanishing component does not contribute to the microstress. It has
+  // to be skipped as the power is unbounded for indices smaller than two
+  auto get_power = [this](const double gradient_component)
+  {
+    return (gradient_component != 0.0) ?
+      std::pow(std::abs(gradient_component), defect_energy_index - 2.) :
+      0.0;
+  };
+
   return (
     factor *
     (
-      std::pow(
-        std::abs(-crystals_data->get_slip_direction(crystal_id, slip_id) *
-                slip_gradient),
-        defect_energy_index - 2.) *
+      get_power(
+        crystals_data->get_slip_direction(crystal_id, slip_id) *
+        slip_gradient) *
       slip_direction_dyads[crystal_id][slip_id]
       +
-      std::pow(
-        std::abs(crystals_data->get_slip_orthogonal(crystal_id, slip_id) *
-                slip_gradient),
-        defect_energy_index - 2.) *
+      get_power(
+        crystals_data->get_slip_orthogonal(crystal_id, slip_id) *
+        slip_gradient) *
       slip_binormal_dyads[crystal_id][slip_id]
     ) *
     slip_gradient);
@@ -714,20 +722,29 @@ get_jacobian(
               dealii::ExcMessage("The VectorialMicrostressLaw<dim> "
                                  "instance has not been initialized."));
 
+  // The power is unbounded at zero for indices smaller than two. There
+  // the component is bounded from below by the regularization parameter
+  auto get_power = [this](const double gradient_component)
+  {
+    return std::pow(
+      (defect_energy_index < 2.0) ?
+        std::max(std::abs(gradient_component), regularization_parameter) :
+        std::abs(gradient_component),
+      defect_energy_index - 2.);
+  };
+
   return (
     factor *
     (defect_energy_index - 1.0) *
     (
-      std::pow(
-        std::abs(-crystals_data->get_slip_direction(crystal_id, slip_id) *
-                slip_gradient),
-        defect_energy_index - 2.) *
+      get_power(
+        crystals_data->get_slip_direction(crystal_id, slip_id) *
+        slip_gradient) *
       slip_direction_dyads[crystal_id][slip_id]
       +
-      std::pow(
-        std::abs(crystals_data->get_slip_orthogonal(crystal_id, slip_id) *
-                slip_gradient),
-        defect_energy_index - 2.) *
+      get_power(
+        crystals_data->get_slip_orthogonal(crystal_id, slip_id) *
+        slip_gradient) *
       slip_binormal_dyads[crystal_id][slip_id]
     ));
 }
-- 
2.43.0


From c0123efeedf14b4743ef4aeeffdb7f51132c6ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 06/48] fix: tolerate round-off in the grain interaction moduli
 in three dimensions

---
 source/constitutive_laws.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index f1d0f53..97989a2 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -954,14 +954,14 @@ MicrotractionLaw<3>::get_grain_interaction_moduli(
 
         AssertThrow(
           std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) >= 0.0 &&
-            std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= 1.0,
+            std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= (1.0 + 1e-14),
           dealii::ExcMessage(
             "The interaction moduli should be inside the "
             "range [0,1]."));
 
         AssertThrow(
           std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) >= 0.0 &&
-            std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= 1.0,
+            std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= (1.0 + 1e-14),
           dealii::ExcMessage(
             "The interaction moduli should be inside the "
             "range [0,1]."));
-- 
2.43.0


From 3eb14d73c7a5633a29bfcd5b601c2358cdc8e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 07/48] fix: the derivative of the uncoupled degradation
 function is zero

---
 include/gCP/constitutive_laws.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gCP/constitutive_laws.h b/include/gCP/constitutive_laws.h
index b22fa12..45ac817 100644
--- a/include/gCP/constitutive_laws.h
+++ b/include/gCP/constitutive_laws.h
@@ -577,7 +577,7 @@ DegradationFunction::get_degradation_function_derivative_value(
   }
   else
   {
-    return 1.0;
+    return 0.0;
   }
 }
 
-- 
2.43.0


From 1e63258583f7042287a24a70ba4b560845024a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 08/48] fix: too many columns in a crystal file are rejected in
 release mode

---
 source/crystal_data.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/crystal_data.cc b/source/crystal_data.cc
index 9a382eb..44fa5f8 100644
--- a/source/crystal_data.cc
+++ b/source/crystal_data.cc
@@ -114,7 +114,11 @@ void CrystalsData<dim>::read_and_store_data(
                             vector_component,
                             ','))
         {
-          AssertIndexRange(component, dim);
+          AssertThrow(
+            component < dim,
+            dealii::ExcMessage(
+              "A row of the specified file has more entries than "
+              "expected."));
 
           vector[component++] = std::stod(vector_component);
         }
-- 
2.43.0


From 6a02f10b4d29a7959e189e9dff3cb2432ac98959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 09/48] fix: slip systems are validated independently of the
 vectors' magnitude

---
 source/crystal_data.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/crystal_data.cc b/source/crystal_data.cc
index 44fa5f8..b768d15 100644
--- a/source/crystal_data.cc
+++ b/source/crystal_data.cc
@@ -216,6 +216,13 @@ void CrystalsData<dim>::read_and_store_data(
   // completing the orthonormal basis
   for (unsigned int i = 0; i < reference_slip_normals.size(); ++i)
   {
+    AssertThrow(reference_slip_normals[i].norm() > 0.0 &&
+                reference_slip_directions[i].norm() > 0.0,
+                dealii::ExcMessage("The slip normal or the slip "
+                                   "direction of the " +
+                                   std::to_string(i) + "-th slip "
+                                   "system is a zero vector." ));
+
     AssertThrow(orthogonality_check(reference_slip_normals[i],
                                     reference_slip_directions[i]),
                 dealii::ExcMessage("The slip normal and the slip "
@@ -262,7 +269,9 @@ bool CrystalsData<dim>::orthogonality_check(
 {
   const double scalar_product = dealii::scalar_product(a, b);
 
-  return std::fabs(scalar_product) <= __DBL_EPSILON__;
+  // The check is relative as the vectors are yet to be normalized
+  return std::fabs(scalar_product) <=
+    10.0 * __DBL_EPSILON__ * a.norm() * b.norm();
 }
 
 
-- 
2.43.0


From 7e315bd41091ec9f78ec230f5c39a6cb0f64a926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 10/48] fix: the logger rejects values of undeclared columns

---
 source/utilities.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/utilities.cc b/source/utilities.cc
index aa0e1e4..50228f4 100644
--- a/source/utilities.cc
+++ b/source/utilities.cc
@@ -258,6 +258,11 @@ void Logger::update_value(const std::string column_name,
 {
   AssertIsFinite(value);
 
+  AssertThrow(
+    data_map.count(column_name) != 0,
+    dealii::ExcMessage("The column \"" + column_name +
+                       "\" was not declared!"));
+
   data_map[column_name].first = value;
 }
 
-- 
2.43.0


From d43a11f2bc15a23356fc1838d1a12df70b05cb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 11/48] fix: the logger prints negative integers

---
 source/utilities.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/utilities.cc b/source/utilities.cc
index 50228f4..f6a30ee 100644
--- a/source/utilities.cc
+++ b/source/utilities.cc
@@ -284,7 +284,7 @@ void Logger::log_to_file()
     {
     case Format::Integer:
       output_filepath << std::setw(key.length()) << std::right
-        << std::fixed << (unsigned int)value;
+        << std::fixed << (long long)value;
       break;
 
     case Format::Decimal:
@@ -350,7 +350,7 @@ void Logger::log_values_to_terminal()
     {
     case Format::Integer:
       pcout << std::setw(key.length()) << std::right << std::fixed
-        << (unsigned int)value;
+        << (long long)value;
       break;
 
     case Format::Decimal:
-- 
2.43.0


From 1213c1c3ea9c0c591bda652f7ebcd22abbb2fbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 12/48] fix: displacements are continuous along grain boundary
 edges for quadratic slips in three dimensions

---
 source/fe_field.cc | 85 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 85 insertions(+)

diff --git a/source/fe_field.cc b/source/fe_field.cc
index 89eecbb..8892bdf 100644
--- a/source/fe_field.cc
+++ b/source/fe_field.cc
@@ -15,6 +15,81 @@ namespace gCP
 
 
 
+namespace
+{
+
+
+
+/*!
+ * @brief Constrains the coinciding displacement degrees of freedom of
+ * different crystals at the edges of a grain boundary
+ *
+ * @details In three dimensions dealii::DoFHandler unifies the line
+ * degrees of freedom of two finite elements only if all of them
+ * coincide. This is not the case if the slips also have line degrees of
+ * freedom, as those of another crystal are of type dealii::FE_Nothing.
+ */
+template <int dim>
+void make_edge_continuity_constraints(
+  const dealii::DoFHandler<dim>     &dof_handler,
+  dealii::AffineConstraints<double> &constraints)
+{
+  if constexpr (dim == 3)
+  {
+    const auto &fe_collection = dof_handler.get_fe_collection();
+
+    // Edge index -> (finite element index, edge) of the adjacent cells
+    std::map<
+      unsigned int,
+      std::map<
+        unsigned int,
+        typename dealii::DoFHandler<dim>::line_iterator>> edges;
+
+    for (const auto &cell : dof_handler.active_cell_iterators())
+      if (!cell->is_artificial())
+        for (const auto line_id : cell->line_indices())
+          edges[cell->line_index(line_id)].emplace(
+            cell->active_fe_index(), cell->line(line_id));
+
+    for (const auto &edge : edges)
+    {
+      const auto &first = *edge.second.begin();
+
+      for (const auto &other : edge.second)
+        if (other.first != first.first)
+          for (const auto &pair :
+                fe_collection[other.first].hp_line_dof_identities(
+                  fe_collection[first.first]))
+          {
+            const dealii::types::global_dof_index constrained_dof =
+              other.second->dof_index(pair.first, other.first);
+
+            const dealii::types::global_dof_index dof =
+              first.second->dof_index(pair.second, first.first);
+
+            if (constrained_dof != dof &&
+                !constraints.is_constrained(constrained_dof) &&
+                !constraints.is_constrained(dof))
+            {
+              constraints.add_line(constrained_dof);
+              constraints.add_entry(constrained_dof, dof, 1.0);
+            }
+          }
+    }
+  }
+  else
+  {
+    (void)dof_handler;
+    (void)constraints;
+  }
+}
+
+
+
+} // namespace
+
+
+
 template <int dim>
 FEField<dim>::FEField(
   const dealii::Triangulation<dim> &triangulation,
@@ -91,6 +166,11 @@ flag_setup_vectors_was_called(false)
       dealii::DoFTools::make_hanging_node_constraints(
           *dof_handler,
           hanging_node_constraints);
+
+      if (!flag_allow_decohesion)
+        make_edge_continuity_constraints(
+          *dof_handler,
+          hanging_node_constraints);
     }
     hanging_node_constraints.close();
 
@@ -333,6 +413,11 @@ void FEField<dim>::setup_dofs()
     dealii::DoFTools::make_hanging_node_constraints(
         *dof_handler,
         hanging_node_constraints);
+
+    if (!flag_allow_decohesion)
+      make_edge_continuity_constraints(
+        *dof_handler,
+        hanging_node_constraints);
   }
   hanging_node_constraints.close();
 
-- 
2.43.0


From 46d5ccba687cdad917313bd51c4c60a21e8351e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 13/48] fix: sub-norms of large vectors pass their consistency
 check

---
 source/fe_field.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/fe_field.cc b/source/fe_field.cc
index 8892bdf..dfc4dc5 100644
--- a/source/fe_field.cc
+++ b/source/fe_field.cc
@@ -754,8 +754,6 @@ dealii::Vector<double> FEField<dim>::get_sub_l2_norms(
     l2_norms[1] = distributed_vector_tmp.block(1).l2_norm();
   }
 
-  l2_norms[0] /= factor;
-
   auto to_string =
       [](const double number)
   {
@@ -771,7 +769,7 @@ dealii::Vector<double> FEField<dim>::get_sub_l2_norms(
     Assert(
       std::fabs(l2_norm - l2_norms.l2_norm()) <
         std::numeric_limits<double>::epsilon() *
-          tolerance_relaxation_factor,
+          tolerance_relaxation_factor * std::max(1.0, l2_norm),
       dealii::ExcMessage("The norms do not match (" +
         to_string(l2_norm) + ", " + to_string(l2_norms.l2_norm()) +
           ")"));
@@ -781,6 +779,8 @@ dealii::Vector<double> FEField<dim>::get_sub_l2_norms(
     (void)tolerance_relaxation_factor;
   }
 
+  l2_norms[0] /= factor;
+
   return l2_norms;
 }
 
-- 
2.43.0


From ed0ba9fd263e5f3a59c42395e6aef63d629c3521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 14/48] fix: cyclic loading and the load-control traction
 follow the loading parameters

---
 include/gCP/boundary_conditions.h |  2 ++
 source/boundary_conditions.cc     | 43 +++++++++++++++++++++----------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/include/gCP/boundary_conditions.h b/include/gCP/boundary_conditions.h
index 23db833..dc53744 100644
--- a/include/gCP/boundary_conditions.h
+++ b/include/gCP/boundary_conditions.h
@@ -53,6 +53,8 @@ private:
 
   const unsigned int                    component;
 
+  const double                          duration_of_loading_and_unloading_phase;
+
   const double                          period;
 
   const double                          start_of_cyclic_phase;
diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index aeaf6b4..5365192 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -25,10 +25,12 @@ DisplacementControl<dim>::DisplacementControl(
 dealii::Function<dim>(n_components, parameters.start_time),
 n_crystals(n_crystals),
 strip_height(strip_height),
-loading_type(RunTimeParameters::LoadingType::Monotonic),
+loading_type(parameters.loading_type),
 max_strain_load(parameters.max_load),
 min_strain_load(parameters.min_load),
 component(component),
+duration_of_loading_and_unloading_phase(
+  parameters.duration_loading_and_unloading_phase),
 period(parameters.period),
 start_of_cyclic_phase(parameters.start_of_cyclic_phase),
 start_of_unloading(parameters.start_of_unloading_phase),
@@ -72,7 +74,10 @@ void DisplacementControl<dim>::vector_value(
 
         if (time < start_of_cyclic_phase)
         {
-          displacement_load = time * strip_height * offset;
+          displacement_load =
+            offset *
+            (1. - (start_of_cyclic_phase - time) /
+                    duration_of_loading_and_unloading_phase);
         }
         else if (time < start_of_unloading)
         {
@@ -84,8 +89,13 @@ void DisplacementControl<dim>::vector_value(
         }
         else
         {
-          displacement_load = offset * (1 - time + start_of_unloading);
+          displacement_load =
+            offset *
+            (1. - (time - start_of_unloading) /
+                    duration_of_loading_and_unloading_phase);
         }
+
+        displacement_load *= strip_height;
       }
       break;
     default:
@@ -114,14 +124,15 @@ LoadControl<dim>::LoadControl(
   const double characteristic_traction)
 :
 dealii::TensorFunction<1, dim>(parameters.start_time),
-loading_type(RunTimeParameters::LoadingType::Monotonic),
-max_traction_load(0.),
-min_traction_load(0.),
-component(0.),
-duration_of_loading_and_unloading_phase(0.),
-period(0.),
-start_of_cyclic_phase(0.),
-start_of_unloading(0.),
+loading_type(parameters.loading_type),
+max_traction_load(parameters.max_load),
+min_traction_load(parameters.min_load),
+component(0),
+duration_of_loading_and_unloading_phase(
+  parameters.duration_loading_and_unloading_phase),
+period(parameters.period),
+start_of_cyclic_phase(parameters.start_of_cyclic_phase),
+start_of_unloading(parameters.start_of_unloading_phase),
 characteristic_traction(characteristic_traction),
 flag_is_decohesion_allowed(flag_is_decohesion_allowed)
 {
@@ -161,7 +172,10 @@ dealii::Tensor<1, dim> LoadControl<dim>::value(
 
         if (time < start_of_cyclic_phase)
         {
-          traction_load = time * offset;
+          traction_load =
+            offset *
+            (1. - (start_of_cyclic_phase - time) /
+                    duration_of_loading_and_unloading_phase);
         }
         else if (time < start_of_unloading)
         {
@@ -173,7 +187,10 @@ dealii::Tensor<1, dim> LoadControl<dim>::value(
         }
         else
         {
-          traction_load = offset * (1 - time + start_of_unloading);
+          traction_load =
+            offset *
+            (1. - (time - start_of_unloading) /
+                    duration_of_loading_and_unloading_phase);
         }
       }
       break;
-- 
2.43.0


From e29b2651a44d33adce98c488ce17a72c6c759c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 15/48] fix: stress fluctuations are scaled by the
 characteristic stress once

---
 source/postprocessing.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index f953daf..31fd34d 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -480,7 +480,6 @@ void Postprocessor<dim>::evaluate_vector_field(
             plastic_strain_tensor;
 
         stress_tensor =
-          parameters.characteristic_quantities.stress *
           hooke_law->get_stiffness_tetrad_3d(material_id) *
           convert_2d_to_3d(elastic_strain_tensor);
 
-- 
2.43.0


From 65c14881372758bb2741817c18628457ea21f3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 16/48] fix: the postprocessor detects that it was not
 initialised

---
 source/postprocessing.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index 31fd34d..b478894 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -43,7 +43,8 @@ parameters(parameters),
 flag_light_output(flag_light_output),
 flag_output_dimensionless_quantities(
   flag_output_dimensionless_quantities),
-flag_output_fluctuations(flag_output_fluctuations)
+flag_output_fluctuations(flag_output_fluctuations),
+flag_init_was_called(false)
 {
   macroscopic_strain = 0.;
 
-- 
2.43.0


From 836c4cc0c01dad910b8b52d8a02d2934b4b161df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 17/48] fix: the shear stress at the upper boundary is averaged
 over the boundary's area

---
 source/postprocessing.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index b478894..17fd20e 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -825,6 +825,7 @@ void SimpleShear<dim>::compute_stress_12_at_boundary()
 
   double stress_12        = 0.0;
   double local_stress_12  = 0.0;
+  double boundary_area    = 0.0;
 
   for (const auto &cell : fe_field->get_dof_handler().active_cell_iterators())
     if (cell->is_locally_owned() && cell->at_boundary())
@@ -883,6 +884,8 @@ void SimpleShear<dim>::compute_stress_12_at_boundary()
             local_stress_12 +=
               stress_tensor_values[face_q_point][0][1] *
               JxW_values[face_q_point];
+
+            boundary_area += JxW_values[face_q_point];
           }
 
           stress_12 += local_stress_12;
@@ -891,7 +894,10 @@ void SimpleShear<dim>::compute_stress_12_at_boundary()
   // Gather the values of each processor
   stress_12 = dealii::Utilities::MPI::sum(stress_12, MPI_COMM_WORLD);
 
-  average_stress_12 = stress_12 / width;
+  boundary_area =
+    dealii::Utilities::MPI::sum(boundary_area, MPI_COMM_WORLD);
+
+  average_stress_12 = stress_12 / boundary_area;
 }
 
 
-- 
2.43.0


From a2b3b3855bf6f29a00027c93d2089cae929d56ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 18/48] fix: the reported boundary shear follows the cyclic
 loading program that is applied

---
 applications/simple_shear.cc |  3 ++-
 include/gCP/postprocessing.h |  8 +++++-
 source/postprocessing.cc     | 51 ++++++++++++++++++++----------------
 3 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index 7a09818..13c4ba6 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -176,7 +176,8 @@ simple_shear(
   parameters.simple_loading.duration_loading_and_unloading_phase,
   parameters.simple_loading.loading_type,
   3,
-  1. / parameters.n_elements_in_y_direction),
+  1. / parameters.n_elements_in_y_direction,
+  parameters.simple_loading.start_of_unloading_phase),
 string_width(
   (std::to_string((unsigned int)(
   (parameters.simple_loading.end_time -
diff --git a/include/gCP/postprocessing.h b/include/gCP/postprocessing.h
index 2143b0c..3aed3ff 100644
--- a/include/gCP/postprocessing.h
+++ b/include/gCP/postprocessing.h
@@ -17,6 +17,8 @@
 
 #include <deal.II/numerics/data_postprocessor.h>
 
+#include <limits>
+
 namespace gCP
 {
 
@@ -143,7 +145,9 @@ public:
     const double                          initial_loading_time,
     const RunTimeParameters::LoadingType  loading_type,
     const dealii::types::boundary_id      upper_boundary_id,
-    const double                          width);
+    const double                          width,
+    const double                          start_of_unloading_phase =
+      std::numeric_limits<double>::infinity());
 
   void init(
     std::shared_ptr<const Kinematics::ElasticStrain<dim>>   elastic_strain,
@@ -180,6 +184,8 @@ private:
 
   const double                                            width;
 
+  const double                                            start_of_unloading_phase;
+
   bool                                                    flag_init_was_called;
 
   void compute_stress_12_at_boundary();
diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index 17fd20e..9664787 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -684,7 +684,8 @@ SimpleShear<dim>::SimpleShear(
   const double                          initial_loading_time,
   const RunTimeParameters::LoadingType  loading_type,
   const dealii::types::boundary_id      upper_boundary_id,
-  const double                          width)
+  const double                          width,
+  const double                          start_of_unloading_phase)
 :
 fe_field(fe_field),
 mapping_collection(*mapping),
@@ -695,6 +696,7 @@ initial_loading_time(initial_loading_time),
 loading_type(loading_type),
 upper_boundary_id(upper_boundary_id),
 width(width),
+start_of_unloading_phase(start_of_unloading_phase),
 flag_init_was_called(false)
 {
   // Setting up columns
@@ -746,33 +748,36 @@ void SimpleShear<dim>::compute_data(const double time)
       }
       break;
     case RunTimeParameters::LoadingType::Cyclic:
-      {
-        if (time >= initial_loading_time)
-          displacement_load =
-            (max_shear_strain_at_upper_boundary -
-             min_shear_strain_at_upper_boundary) / 2.0 *
-            std::cos(2.0 * M_PI / period * (time - initial_loading_time)) +
-            (max_shear_strain_at_upper_boundary +
-             min_shear_strain_at_upper_boundary) / 2.0;
-        else
-          displacement_load =
-            max_shear_strain_at_upper_boundary *
-            std::sin(M_PI / 2.0 / initial_loading_time * time);
-      }
-      break;
     case RunTimeParameters::LoadingType::CyclicWithUnloading:
       {
-        if (time >= initial_loading_time)
+        // Same loading program as that of
+        // BoundaryConditions::DisplacementControl
+        const double displacement_load_amplitude =
+          (max_shear_strain_at_upper_boundary -
+           min_shear_strain_at_upper_boundary) / 2.0;
+
+        const double displacement_load_offset =
+          (max_shear_strain_at_upper_boundary +
+           min_shear_strain_at_upper_boundary) / 2.0;
+
+        if (time < initial_loading_time)
+        {
+          displacement_load =
+            displacement_load_offset * time / initial_loading_time;
+        }
+        else if (time < start_of_unloading_phase)
+        {
           displacement_load =
-            (max_shear_strain_at_upper_boundary -
-             min_shear_strain_at_upper_boundary) / 2.0 *
-            std::cos(2.0 * M_PI / period * (time - initial_loading_time)) +
-            (max_shear_strain_at_upper_boundary +
-             min_shear_strain_at_upper_boundary) / 2.0;
+            displacement_load_offset +
+            displacement_load_amplitude *
+            std::sin(2.0 * M_PI / period * (time - initial_loading_time));
+        }
         else
+        {
           displacement_load =
-            max_shear_strain_at_upper_boundary *
-            std::sin(M_PI / 2.0 / initial_loading_time * time);
+            displacement_load_offset *
+            (1.0 - (time - start_of_unloading_phase) / initial_loading_time);
+        }
       }
       break;
     default:
-- 
2.43.0


From 0b79bc9253831016dd124f1b14021c35546992c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 19/48] fix: von Mises measures of the homogenised plane-strain
 state are those of the full tensors

---
 include/gCP/postprocessing.h | 12 ++++++
 source/postprocessing.cc     | 82 ++++++++++++++++++++++++++++++++----
 2 files changed, 85 insertions(+), 9 deletions(-)

diff --git a/include/gCP/postprocessing.h b/include/gCP/postprocessing.h
index 3aed3ff..7153f5d 100644
--- a/include/gCP/postprocessing.h
+++ b/include/gCP/postprocessing.h
@@ -312,6 +312,18 @@ private:
    */
   dealii::SymmetricTensor<2,dim>                          microstress_fluctuations;
 
+  /*!
+   * @brief The component 33 of the macroscopic stress tensor
+   * @details In two dimensions it is the out-of-plane component
+   */
+  double                                                  macroscopic_stress_33;
+
+  /*!
+   * @brief The component 33 of the average microstress fluctuations
+   * @details In two dimensions it is the out-of-plane component
+   */
+  double                                                  microstress_fluctuations_33;
+
   /*!
    * @brief The macroscopic strain tensor
    */
diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index 9664787..106707e 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -939,6 +939,8 @@ flag_init_was_called(false)
 
   macroscopic_stress              = 0.;
   microstress_fluctuations        = 0.;
+  macroscopic_stress_33           = 0.;
+  microstress_fluctuations_33     = 0.;
   macroscopic_strain              = 0.;
   microstrain_fluctuations = 0.;
 
@@ -1075,18 +1077,33 @@ void Homogenization<dim>::output_macroscopic_quantities_to_file()
 template <>
 void Homogenization<2>::update_table_handler_values(const double time)
 {
-  const dealii::SymmetricTensor<2,2> deviatoric_stress =
-    deviatoric_projector * macroscopic_stress;
+  // In plane strain the out-of-plane stress and the out-of-plane entry of
+  // the deviators do not vanish
+  const auto deviator =
+    [](const dealii::SymmetricTensor<2,2> &in_plane_tensor,
+       const double                       out_of_plane_component)
+    {
+      dealii::SymmetricTensor<2,3> tensor;
 
-  const dealii::SymmetricTensor<2,2> deviatoric_stress_fluctuations =
-    deviatoric_projector * microstress_fluctuations;
+      tensor[0][0] = in_plane_tensor[0][0];
+      tensor[1][1] = in_plane_tensor[1][1];
+      tensor[2][2] = out_of_plane_component;
+      tensor[0][1] = in_plane_tensor[0][1];
 
-  const dealii::SymmetricTensor<2,2> deviatoric_strain =
-    deviatoric_projector * (macroscopic_strain +
-                            microstrain_fluctuations);
+      return dealii::deviator(tensor);
+    };
 
-  const dealii::SymmetricTensor<2,2> deviatoric_strain_fluctuations =
-    deviatoric_projector * microstrain_fluctuations;
+  const dealii::SymmetricTensor<2,3> deviatoric_stress =
+    deviator(macroscopic_stress, macroscopic_stress_33);
+
+  const dealii::SymmetricTensor<2,3> deviatoric_stress_fluctuations =
+    deviator(microstress_fluctuations, microstress_fluctuations_33);
+
+  const dealii::SymmetricTensor<2,3> deviatoric_strain =
+    deviator(macroscopic_strain + microstrain_fluctuations, 0.0);
+
+  const dealii::SymmetricTensor<2,3> deviatoric_strain_fluctuations =
+    deviator(microstrain_fluctuations, 0.0);
 
   const double von_mises_stress =
     std::sqrt(3./2. * deviatoric_stress * deviatoric_stress);
@@ -1256,6 +1273,31 @@ void Homogenization<dim>::compute_macroscopic_stress()
 
   double                          cell_volume = 0.;
 
+  double                          domain_integral_microstress_33 = 0.;
+
+  double                          domain_integral_microstress_fluctuations_33 = 0.;
+
+  // Out-of-plane stress component (Plane strain) or stress component 33
+  const auto get_stress_33 =
+    [&](const unsigned int                   crystal_id,
+        const dealii::SymmetricTensor<2,dim> &strain_tensor)
+    {
+      const dealii::SymmetricTensor<4,3> &stiffness_tetrad =
+        hooke_law->get_stiffness_tetrad_3d(crystal_id);
+
+      double stress_33 = 0.;
+
+      for (unsigned int i = 0; i < dim; ++i)
+      {
+        for (unsigned int j = 0; j < dim; ++j)
+        {
+          stress_33 += stiffness_tetrad[2][2][i][j] * strain_tensor[i][j];
+        }
+      }
+
+      return stress_33;
+    };
+
   domain_integral_microstress              = 0.;
 
   domain_integral_microstress_fluctuations = 0.;
@@ -1339,6 +1381,19 @@ void Homogenization<dim>::compute_macroscopic_stress()
           strain_tensor_values[quadrature_point_id] *
           JxW_values[quadrature_point_id];
 
+        domain_integral_microstress_33 +=
+          get_stress_33(
+            crystal_id,
+            macroscopic_strain +
+            elastic_strain_tensor_values[quadrature_point_id]) *
+          JxW_values[quadrature_point_id];
+
+        domain_integral_microstress_fluctuations_33 +=
+          get_stress_33(
+            crystal_id,
+            elastic_strain_tensor_values[quadrature_point_id]) *
+          JxW_values[quadrature_point_id];
+
         cell_volume += JxW_values[quadrature_point_id];
       }
 
@@ -1380,6 +1435,15 @@ void Homogenization<dim>::compute_macroscopic_stress()
 
   microstrain_fluctuations =
     domain_integral_microstrain_fluctuations / domain_volume;
+
+  macroscopic_stress_33 =
+    dealii::Utilities::MPI::sum(domain_integral_microstress_33,
+                                MPI_COMM_WORLD) / domain_volume;
+
+  microstress_fluctuations_33 =
+    dealii::Utilities::MPI::sum(
+      domain_integral_microstress_fluctuations_33,
+      MPI_COMM_WORLD) / domain_volume;
 }
 
 
-- 
2.43.0


From df4ccb97350107fa34d46508c41ffc69938c3db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 20/48] fix: an output directory without trailing slash is the
 directory written to

---
 source/run_time_parameters.cc | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/source/run_time_parameters.cc b/source/run_time_parameters.cc
index 1f401e5..ea5527d 100644
--- a/source/run_time_parameters.cc
+++ b/source/run_time_parameters.cc
@@ -32,6 +32,24 @@ namespace RunTimeParameters
 
 
 
+namespace
+{
+
+// Returns the output directory with a trailing slash, such that file
+// names can be appended to it. Its subsection has to be entered.
+std::string get_output_directory(const dealii::ParameterHandler &prm)
+{
+  std::string output_directory = prm.get("Graphical output directory");
+
+  if (!output_directory.empty() && output_directory.back() != '/')
+    output_directory += '/';
+
+  return output_directory;
+}
+
+} // namespace
+
+
 HookeLawParameters::HookeLawParameters()
 :
 C1111(134615),
@@ -1330,7 +1348,7 @@ void SolverParameters::parse_parameters(dealii::ParameterHandler &prm)
 
   prm.enter_subsection("4. Output parameters");
   {
-    logger_output_directory = prm.get("Graphical output directory");
+    logger_output_directory = get_output_directory(prm);
   }
   prm.leave_subsection();
 
@@ -1856,7 +1874,7 @@ void Output::parse_parameters(
 {
   prm.enter_subsection("4. Output parameters");
   {
-    output_directory = prm.get("Graphical output directory");
+    output_directory = get_output_directory(prm);
 
     if ((dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD) == 0) &&
         !fs::exists(output_directory + "paraview/"))
@@ -2117,7 +2135,7 @@ InfiniteStripProblem()
 
     prm.enter_subsection("4. Output parameters");
     {
-      output_folder_path = prm.get("Graphical output directory");
+      output_folder_path = get_output_directory(prm);
     }
     prm.leave_subsection();
 
@@ -2282,7 +2300,7 @@ SemicoupledParameters()
 
   prm.enter_subsection("4. Output parameters");
   {
-    output_folder_path = prm.get("Graphical output directory");
+    output_folder_path = get_output_directory(prm);
   }
   prm.leave_subsection();
 
-- 
2.43.0


From b36cfa90c1d22312eceaae8d552dab6c1e345438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 21/48] fix: an output frequency of zero is rejected instead of
 dividing by zero

---
 source/run_time_parameters.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/run_time_parameters.cc b/source/run_time_parameters.cc
index ea5527d..264ac66 100644
--- a/source/run_time_parameters.cc
+++ b/source/run_time_parameters.cc
@@ -1842,7 +1842,7 @@ void Output::declare_parameters(
 
     prm.declare_entry("Graphical output frequency",
                       "1",
-                      dealii::Patterns::Integer(0));
+                      dealii::Patterns::Integer(1));
 
     prm.declare_entry("Terminal output frequency",
                       "1",
@@ -1957,7 +1957,7 @@ void Homogenization::declare_parameters(
 
     prm.declare_entry("Homogenization frequency",
                       "1",
-                      dealii::Patterns::Integer(0));
+                      dealii::Patterns::Integer(1));
   }
   prm.leave_subsection();
 }
-- 
2.43.0


From 08e1780a4ffb1f54930c01a9257a4cb2c055c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 22/48] fix: inconsistent input parameters are rejected in
 release builds too

---
 source/run_time_parameters.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/source/run_time_parameters.cc b/source/run_time_parameters.cc
index 264ac66..5d859bf 100644
--- a/source/run_time_parameters.cc
+++ b/source/run_time_parameters.cc
@@ -433,7 +433,7 @@ void HardeningLaw::parse_parameters(dealii::ParameterHandler &prm)
   {
     prm.enter_subsection("Vectorial microstress law's parameters");
     {
-      Assert(initial_slip_resistance ==
+      AssertThrow(initial_slip_resistance ==
               prm.get_double("Initial slip resistance"),
             dealii::ExcMessage(
               "The initial slip resistance of the hardening law and of "
@@ -1101,7 +1101,7 @@ void MonolithicAlgorithmParameters::parse_parameters(
     }
     else if (string_monolithic_preconditioner == std::string("block"))
     {
-      Assert(false, dealii::ExcMessage(
+      AssertThrow(false, dealii::ExcMessage(
         "Block preconditioner has not been implemented"));
 
       monolithic_preconditioner = MonolithicPreconditioner::Block;
@@ -1400,16 +1400,16 @@ parse_parameters(dealii::ParameterHandler &prm)
 
     time_step_size        = prm.get_double("Time step size");
 
-    Assert(start_time >= 0.0,
+    AssertThrow(start_time >= 0.0,
             dealii::ExcLowerRangeType<double>(start_time, 0.0));
 
-    Assert(end_time > start_time,
+    AssertThrow(end_time > start_time,
             dealii::ExcLowerRangeType<double>(end_time, start_time));
 
-    Assert(time_step_size > 0,
+    AssertThrow(time_step_size > 0,
             dealii::ExcLowerRangeType<double>(time_step_size, 0));
 
-    Assert(end_time >= (start_time + time_step_size),
+    AssertThrow(end_time >= (start_time + time_step_size),
             dealii::ExcLowerRangeType<double>(
             end_time, start_time + time_step_size));
   }
@@ -1587,11 +1587,11 @@ void SimpleLoading::parse_parameters(
       start_of_unloading_phase =
         start_of_cyclic_phase + n_cycles * period;
 
-      Assert(
+      AssertThrow(
         duration_monotonic_load > 0.,
         dealii::ExcLowerRangeType<double>(duration_monotonic_load, 0.));
 
-      Assert(
+      AssertThrow(
         period > 0.,
         dealii::ExcLowerRangeType<double>(period, 0.));
 
@@ -1599,7 +1599,7 @@ void SimpleLoading::parse_parameters(
 
       message << "The maximum load has to be greater than the minimum load\n";
 
-      Assert(
+      AssertThrow(
         max_load > min_load,
         dealii::ExcMessage(message.str().c_str()));
     }
@@ -2392,12 +2392,12 @@ void SemicoupledParameters::parse_parameters(dealii::ParameterHandler &prm)
 
     AssertIsFinite(min_to_max_strain_load_ratio);
 
-    Assert((0 <= min_to_max_strain_load_ratio) &&
+    AssertThrow((0 <= min_to_max_strain_load_ratio) &&
            (min_to_max_strain_load_ratio < 1.0),
            dealii::ExcMessage("The ratio has to be inside the range "
                               "[0,1)"));
 
-    Assert(
+    AssertThrow(
       (msh_file_pathname.find_last_of(".") != std::string::npos) &&
       (msh_file_pathname.substr(msh_file_pathname.find_last_of(".")+1)
         == "msh"),
-- 
2.43.0


From dc5a6a4299284e3e24e3410de5e8fba130a74090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 23/48] fix: a loading and unloading phase without duration is
 rejected

---
 source/run_time_parameters.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/run_time_parameters.cc b/source/run_time_parameters.cc
index 5d859bf..33619e5 100644
--- a/source/run_time_parameters.cc
+++ b/source/run_time_parameters.cc
@@ -1591,6 +1591,11 @@ void SimpleLoading::parse_parameters(
         duration_monotonic_load > 0.,
         dealii::ExcLowerRangeType<double>(duration_monotonic_load, 0.));
 
+      AssertThrow(
+        duration_loading_and_unloading_phase > 0.,
+        dealii::ExcLowerRangeType<double>(
+          duration_loading_and_unloading_phase, 0.));
+
       AssertThrow(
         period > 0.,
         dealii::ExcLowerRangeType<double>(period, 0.));
-- 
2.43.0


From 5f39e5373cc4e8aa3c371f00c945d01fc534a469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 24/48] fix: order of convergence is defined for vanishing
 residuals

A load step whose start value already fulfils the balances made the
debug build abort with a non-finite value in the log (log(0)/log(0)).
---
 source/gradient_crystal_plasticity/solve.cc | 59 +++++++++++++++------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index ae477d7..67c2c24 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -10,6 +10,32 @@ namespace gCP
 
 
 
+namespace
+{
+
+
+
+/*!
+ * @brief Ratio of the logarithms of two consecutive residual norms.
+ * Zero if it is undefined, i.e., if one of the norms is zero or if the
+ * old one is equal to one.
+ */
+double get_order_of_convergence(
+  const double residual_l2_norm,
+  const double old_residual_l2_norm)
+{
+  const double order_of_convergence =
+    std::log(residual_l2_norm) / std::log(old_residual_l2_norm);
+
+  return std::isfinite(order_of_convergence) ? order_of_convergence : 0.0;
+}
+
+
+
+} // namespace
+
+
+
 template <int dim>
 void GradientCrystalPlasticitySolver<dim>::
 extrapolate_initial_trial_solution(const bool flag_skip_extrapolation)
@@ -256,8 +282,9 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
         fe_field->get_sub_l2_norms(newton_update);
 
       const double order_of_convergence =
-        std::log(residual_l2_norms.l2_norm()) /
-          std::log(old_residual_l2_norms.l2_norm());
+        get_order_of_convergence(
+          residual_l2_norms.l2_norm(),
+          old_residual_l2_norms.l2_norm());
 
       average_order_of_convergence += order_of_convergence;
 
@@ -542,10 +569,9 @@ void GradientCrystalPlasticitySolver<dim>::bouncing_algorithm()
               fe_field->get_sub_l2_norms(newton_update);
 
             const double order_of_convergence =
-              old_residual_l2_norms[1] != 0. ?
-                std::log(residual_l2_norms[1]) /
-                  std::log(old_residual_l2_norms[1])
-              : 0.0;
+              get_order_of_convergence(
+                residual_l2_norms[1],
+                old_residual_l2_norms[1]);
 
             local_average_micro_order_of_convergence +=
               order_of_convergence;
@@ -677,8 +703,9 @@ void GradientCrystalPlasticitySolver<dim>::bouncing_algorithm()
           fe_field->get_sub_l2_norms(newton_update);
 
         const double order_of_convergence =
-          std::log(residual_l2_norms[0]) /
-          std::log(old_residual_l2_norms[0]);
+          get_order_of_convergence(
+            residual_l2_norms[0],
+            old_residual_l2_norms[0]);
 
         local_average_macro_order_of_convergence +=
           order_of_convergence;
@@ -854,8 +881,9 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
       // Terminal and log output
       {
         const double order_of_convergence =
-          std::log(residual_l2_norms[0]) /
-          std::log(old_residual_l2_norms[0]);
+          get_order_of_convergence(
+            residual_l2_norms[0],
+            old_residual_l2_norms[0]);
 
         average_macro_order_of_convergence += order_of_convergence;
 
@@ -966,9 +994,9 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
         // Terminal and log output
         {
           const double order_of_convergence =
-            tmp_old_residual_l2_norms[1] != 0. ?
-              std::log(tmp_residual_l2_norms[1]) /
-                std::log(tmp_old_residual_l2_norms[1]) : 0.0;
+            get_order_of_convergence(
+              tmp_residual_l2_norms[1],
+              tmp_old_residual_l2_norms[1]);
 
           local_average_micro_order_of_convergence +=
             order_of_convergence;
@@ -1004,8 +1032,9 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
     {
       // Terminal and log output
       const double order_of_convergence =
-        std::log(tmp_residual_l2_norms[0]) /
-        std::log(old_residual_l2_norms[0]);
+        get_order_of_convergence(
+          tmp_residual_l2_norms[0],
+          old_residual_l2_norms[0]);
 
       update_and_output_nonlinear_solver_logger(
         0,
-- 
2.43.0


From 228c028e78c984fbe4da3fd4eae0e1cc10774be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 25/48] fix: the reduced system of the embracing algorithm is
 the Schur complement

The Trilinos solver acts on the operator's Trilinos payload, in which
inverse_operator() is not inverted, i.e., D - E G F was solved instead of
D - E inv(G) F.
---
 source/gradient_crystal_plasticity/solve.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 67c2c24..69e422e 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -4,6 +4,7 @@
 
 #include <deal.II/lac/trilinos_linear_operator.h>
 #include <deal.II/lac/packaged_operation.h>
+#include <deal.II/lac/solver_cg.h>
 
 namespace gCP
 {
@@ -1458,7 +1459,10 @@ solve_reduced_linearized_system()
         macro_krylov_parameters.relative_tolerance,
       macro_krylov_parameters.absolute_tolerance));
 
-  dealii::LinearAlgebraTrilinos::SolverCG solver(solver_control);
+  // The Trilinos solver can not be used here. It would act on the
+  // operator's Trilinos payload, in which inv_G is not inverted.
+  dealii::SolverCG<dealii::LinearAlgebraTrilinos::MPI::Vector>
+    solver(solver_control);
 
   dealii::LinearAlgebraTrilinos::MPI::PreconditionILU preconditioner;
 
-- 
2.43.0


From 57ccb5a1c71ac2819eee3368ef2e94145e53bd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 26/48] fix: damage model M1 does not depend on previous trial
 states

The thermodynamic force was evaluated with the damage variable of the
last trial state (or of the other side's update).
---
 source/gradient_crystal_plasticity/assembly.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 7c67d82..4073e2c 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -1496,6 +1496,12 @@ update_local_quadrature_point_history(
 
           case RunTimeParameters::DamageEvolutionModel::M1:
             {
+              // The thermodynamic force is evaluated with the damage
+              // variable of the previous step and not with that of a
+              // previous trial state
+              local_interface_quadrature_point_history[face_q_point]->
+                reset_values();
+
               scratch.thermodynamic_force_values[face_q_point] =
                 - degradation_function->
                     get_degradation_function_derivative_value(
-- 
2.43.0


From c8faa49ed64702a9fd914e6eaa6e58bd1838dcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 27/48] fix: stored cohesive traction is degraded with the
 parsed exponent

damage_evolution_parameters.degradation_exponent is neither declared,
parsed nor initialized.
---
 source/gradient_crystal_plasticity/assembly.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 4073e2c..1f562fa 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -1696,10 +1696,9 @@ store_local_effective_opening_displacement(
             scratch.neighbor_cell_displacement_values[face_q_point],
             scratch.current_cell_displacement_values[face_q_point],
             scratch.normal_vector_values[face_q_point],
-            (parameters.constitutive_laws_parameters.damage_evolution_parameters.flag_couple_macrotraction_to_damage ?
-              std::pow(1.0 - local_interface_quadrature_point_history[face_q_point]->get_damage_variable(),
-                        parameters.constitutive_laws_parameters.damage_evolution_parameters.degradation_exponent) :
-              1.0 ) *
+            degradation_function->get_degradation_function_value(
+              local_interface_quadrature_point_history[face_q_point]->get_damage_variable(),
+              parameters.constitutive_laws_parameters.damage_evolution_parameters.flag_couple_macrotraction_to_damage) *
             scratch.cohesive_traction_values[face_q_point].norm());
         }
       }
-- 
2.43.0


From de7aa9bf89ed7457eab7dbd7dd2e72cb6af04017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 28/48] fix: a grain-boundary face's history is written by one
 task only

The tasks of both adjacent cells reset and updated the shared history
concurrently, i.e., a data race.
---
 source/gradient_crystal_plasticity/assembly.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 1f562fa..ea05765 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -1414,6 +1414,12 @@ update_local_quadrature_point_history(
           cell->material_id() !=
             cell->neighbor(face_index)->material_id())
       {
+        // Both adjacent cells share the interface's history. Only one
+        // of them may write to it, as they are visited concurrently.
+        if (cell->neighbor(face_index)->is_locally_owned() &&
+            cell->neighbor(face_index)->id() < cell->id())
+          continue;
+
         // Get the crystal identifier for the neighbor cell
         const unsigned int neighbor_crystal_id =
           cell->neighbor(face_index)->material_id();
@@ -1622,6 +1628,12 @@ store_local_effective_opening_displacement(
           cell->material_id() !=
             cell->neighbor(face_index)->material_id())
       {
+        // Both adjacent cells share the interface's history. Only one
+        // of them may write to it, as they are visited concurrently.
+        if (cell->neighbor(face_index)->is_locally_owned() &&
+            cell->neighbor(face_index)->id() < cell->id())
+          continue;
+
         // Get the crystal identifier for the neighbor cell
         const unsigned int neighbor_crystal_id =
           cell->neighbor(face_index)->material_id();
-- 
2.43.0


From 2eaccc11aabb9f0ab5b387019c41ca138c5c2900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 29/48] fix: stored cohesive traction uses the old effective
 opening

The norm of the old opening, which counts penetration, led to 0/0 at an
interface that was only ever compressed.
---
 source/gradient_crystal_plasticity/assembly.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index ea05765..1d99e8a 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -1700,8 +1700,8 @@ store_local_effective_opening_displacement(
               scratch.normal_vector_values[face_q_point],
               local_interface_quadrature_point_history[face_q_point]->
                 get_max_effective_opening_displacement(),
-              (scratch.neighbor_cell_old_displacement_values[face_q_point] -
-               scratch.current_cell_old_displacement_values[face_q_point]).norm(),
+              local_interface_quadrature_point_history[face_q_point]->
+                get_old_effective_opening_displacement(),
               discrete_time.get_next_step_size());
 
           local_interface_quadrature_point_history[face_q_point]->store_effective_opening_displacement(
-- 
2.43.0


From 5c0353413280e61035dca87b9e867d01872b1305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 30/48] fix: internal variables belong to the assembled trial
 solution

In the first monolithic iteration they were computed before the active
set and the boundary values were applied to the trial solution. In debug
mode an opening above the stored maximum aborts the run.
---
 source/gradient_crystal_plasticity/solve.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 69e422e..edadc75 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -234,6 +234,9 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
     distribute_affine_constraints_to_trial_solution();
 
+    // The trial solution may have changed since the last update
+    reset_and_update_internal_variables();
+
     // Assemble linear system
     assemble_linear_system();
 
-- 
2.43.0


From 7c4f39ae5c212915f9b308e3929921b35bea1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:45 +0000
Subject: [PATCH 31/48] fix: line search of the micro block restarts from the
 stored trial solution

---
 source/gradient_crystal_plasticity/solve.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index edadc75..2b4db46 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -1658,7 +1658,7 @@ line_search_algorithm(
       line_search->get_lambda(objective_function_value,
                               relaxation_parameter);
 
-    reset_trial_solution();
+    reset_trial_solution(false, block_index);
 
     update_trial_solution(relaxation_parameter, block_index);
 
-- 
2.43.0


From 951af6cd9ba5d7c69d04dfc3edc7754fd3143c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:54 +0000
Subject: [PATCH 32/48] fix: face values of the history update are sized for
 the face quadrature

---
 source/gradient_crystal_plasticity/assembly_data.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/gradient_crystal_plasticity/assembly_data.cc b/source/gradient_crystal_plasticity/assembly_data.cc
index 5a05378..2d10abc 100644
--- a/source/gradient_crystal_plasticity/assembly_data.cc
+++ b/source/gradient_crystal_plasticity/assembly_data.cc
@@ -445,10 +445,10 @@ old_slips_values(
   std::vector<double>(this->n_q_points, 0.0)),
 face_slip_values(
   n_slips,
-  std::vector<double>(this->n_q_points, 0.0)),
+  std::vector<double>(this->n_face_q_points, 0.0)),
 neighbor_face_slip_values(
   n_slips,
-  std::vector<double>(this->n_q_points, 0.0)),
+  std::vector<double>(this->n_face_q_points, 0.0)),
 effective_opening_displacement(this->n_face_q_points),
 thermodynamic_force_values(this->n_face_q_points),
 normal_vector_values(this->n_face_q_points),
@@ -490,10 +490,10 @@ old_slips_values(
   std::vector<double>(this->n_q_points, 0.0)),
 face_slip_values(
   n_slips,
-  std::vector<double>(this->n_q_points, 0.0)),
+  std::vector<double>(this->n_face_q_points, 0.0)),
 neighbor_face_slip_values(
   n_slips,
-  std::vector<double>(this->n_q_points, 0.0)),
+  std::vector<double>(this->n_face_q_points, 0.0)),
 effective_opening_displacement(this->n_face_q_points),
 thermodynamic_force_values(this->n_face_q_points),
 normal_vector_values(this->n_face_q_points),
-- 
2.43.0


From 738d5f3505789a4a9a9942da4dba7b373b88cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:54 +0000
Subject: [PATCH 33/48] fix: resetting the history update's scratch stays
 within its values

---
 source/gradient_crystal_plasticity/assembly_data.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/gradient_crystal_plasticity/assembly_data.cc b/source/gradient_crystal_plasticity/assembly_data.cc
index 2d10abc..75cfbd0 100644
--- a/source/gradient_crystal_plasticity/assembly_data.cc
+++ b/source/gradient_crystal_plasticity/assembly_data.cc
@@ -509,10 +509,8 @@ cohesive_traction_values(this->n_face_q_points)
 template <int dim>
 void Scratch<dim>::reset()
 {
-  const unsigned int n_q_points = slips_values.size();
-
   for (unsigned int slip_id = 0; slip_id < n_slips; ++slip_id)
-    for (unsigned int q_point = 0; q_point < n_q_points; ++q_point)
+    for (unsigned int q_point = 0; q_point < this->n_q_points; ++q_point)
     {
       slips_values[slip_id][q_point]     = 0.0;
       old_slips_values[slip_id][q_point] = 0.0;
-- 
2.43.0


From 83d978b027652d6d65c10609e3cf92d52462d8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 34/48] fix: the active set is the same in every process

A degree of freedom is constrained or left free in all the processes it
is relevant to, and the decision to repeat the solution with the updated
active set is taken jointly. So far only the locally owned degrees of
freedom of the inactive set were constrained.
---
 .../gradient_crystal_plasticity/active_set.cc | 123 ++++++++++++------
 source/gradient_crystal_plasticity/solve.cc   |   6 +-
 2 files changed, 85 insertions(+), 44 deletions(-)

diff --git a/source/gradient_crystal_plasticity/active_set.cc b/source/gradient_crystal_plasticity/active_set.cc
index 4557cf9..624eba4 100644
--- a/source/gradient_crystal_plasticity/active_set.cc
+++ b/source/gradient_crystal_plasticity/active_set.cc
@@ -54,6 +54,66 @@ void GradientCrystalPlasticitySolver<dim>::determine_active_set()
 
   compute_trial_microstress();
 
+  // State of the degrees of freedom, which every process needs to know
+  // for all its locally relevant degrees of freedom: 0 for those of the
+  // displacements, 1 for those of inactive and larger values for those
+  // of active slips
+  dealii::LinearAlgebraTrilinos::MPI::BlockVector
+    distributed_active_set, ghosted_active_set;
+
+  distributed_active_set.reinit(fe_field->distributed_vector);
+
+  distributed_active_set = 0.;
+
+  ghosted_active_set.reinit(fe_field->solution);
+
+  for (const auto &locally_owned_dof :
+        fe_field->get_locally_owned_plastic_slip_dofs())
+  {
+    distributed_active_set(locally_owned_dof) += 1.0;
+
+    double local_yield_stress = 0.;
+
+    if (prm.flag_perfect_plasticity)
+    {
+      local_yield_stress =
+        prm.initial_slip_resistance /
+          parameters.dimensionless_form_parameters.
+            characteristic_quantities.slip_resistance;
+    }
+    else
+    {
+      local_yield_stress = slip_resistance(locally_owned_dof);
+    }
+
+    if (std::abs(trial_microstress->
+          solution[locally_owned_dof]) > local_yield_stress)
+    {
+      // The material can not plastically flow at the Dirichlet
+      // boundary
+      if (!fe_field->get_affine_constraints().is_constrained(
+            locally_owned_dof))
+      {
+        distributed_active_set(locally_owned_dof) += 1.0;
+      }
+
+      // If a degree of freedom leads to plastic flow at a periodic
+      // boundary, the corresponding degree of freedom needs to be
+      // also added to the active set
+      if (fe_field->get_affine_constraints().is_identity_constrained(
+            locally_owned_dof))
+      {
+        distributed_active_set(
+          (*fe_field->get_affine_constraints().
+              get_constraint_entries(locally_owned_dof))[0].first) += 1.0;
+      }
+    }
+  }
+
+  distributed_active_set.compress(dealii::VectorOperation::add);
+
+  ghosted_active_set = distributed_active_set;
+
   locally_owned_active_set.clear();
 
   dealii::AffineConstraints<double> inactive_set_affine_constraints;
@@ -61,60 +121,37 @@ void GradientCrystalPlasticitySolver<dim>::determine_active_set()
   inactive_set_affine_constraints.clear();
   {
     inactive_set_affine_constraints.reinit(
-      fe_field->get_locally_owned_dofs());
+      fe_field->get_locally_relevant_dofs());
 
     inactive_set_affine_constraints.merge(
       fe_field->get_hanging_node_constraints());
 
-    for (const auto &locally_owned_dof :
-          fe_field->get_locally_owned_plastic_slip_dofs())
+    for (const auto &locally_relevant_dof :
+          fe_field->get_locally_relevant_dofs())
     {
-      double local_yield_stress = 0.;
-
-      if (prm.flag_perfect_plasticity)
+      if (ghosted_active_set(locally_relevant_dof) == 0.0)
       {
-        local_yield_stress =
-          prm.initial_slip_resistance /
-            parameters.dimensionless_form_parameters.
-              characteristic_quantities.slip_resistance;
-      }
-      else
-      {
-        local_yield_stress = slip_resistance(locally_owned_dof);
+        continue;
       }
 
-      if (std::abs(trial_microstress->
-            solution[locally_owned_dof]) > local_yield_stress)
+      // A degree of freedom at a periodic boundary flows together with
+      // the one it is constrained to
+      const bool flag_active_dof =
+        ghosted_active_set(
+          fe_field->get_affine_constraints().is_identity_constrained(
+              locally_relevant_dof)
+            ? (*fe_field->get_affine_constraints().
+                get_constraint_entries(locally_relevant_dof))[0].first
+            : locally_relevant_dof) > 1.0;
+
+      if (!flag_active_dof)
       {
-        // The material can not plastically flow at the Dirichlet
-        // boundary
-        if (!fe_field->get_affine_constraints().is_constrained(
-              locally_owned_dof))
-        {
-          locally_owned_active_set.add_index(locally_owned_dof);
-        }
-
-        // If a degree of freedom leads to plastic flow at a periodic
-        // boundary, the corresponding degree of freedom needs to be
-        // also added to the active set
-        if (fe_field->get_affine_constraints().is_identity_constrained(
-              locally_owned_dof))
-        {
-          const std::vector<
-            std::pair<dealii::types::global_dof_index, double>>
-              *constraint_entries =
-                fe_field->get_affine_constraints().
-                  get_constraint_entries(locally_owned_dof);
-
-          locally_owned_active_set.add_index(locally_owned_dof);
-
-          locally_owned_active_set.add_index((*constraint_entries)[0].first);
-        }
+        inactive_set_affine_constraints.add_line(locally_relevant_dof);
       }
-
-      if (!locally_owned_active_set.is_element(locally_owned_dof))
+      else if (fe_field->get_locally_owned_dofs().is_element(
+                 locally_relevant_dof))
       {
-        inactive_set_affine_constraints.add_line(locally_owned_dof);
+        locally_owned_active_set.add_index(locally_relevant_dof);
       }
     }
 
diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 2b4db46..71bb678 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -325,7 +325,11 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
         active_set_algorithm(flag_compute_active_set);
 
-        if (original_active_set != locally_owned_active_set)
+        // The decision has to be the same in all processes
+        if (dealii::Utilities::MPI::max(
+              static_cast<unsigned int>(
+                original_active_set != locally_owned_active_set),
+              MPI_COMM_WORLD) != 0)
         {
           flag_successful_convergence = false;
 
-- 
2.43.0


From ae3750b57df667ccd414eaf06e82b0225113d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:08 +0000
Subject: [PATCH 35/48] fix: macroscopic damage starts from zero and is zero
 without grain boundaries

---
 source/gradient_crystal_plasticity/assembly.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 1d99e8a..1861782 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -2033,7 +2033,7 @@ double GradientCrystalPlasticitySolver<dim>::get_macroscopic_damage()
   // at the quadrature points
   std::vector<double> JxW_values(n_face_quadrature_points);
 
-  double              domain_integral_damage_variable;
+  double              domain_integral_damage_variable = 0.;
 
   double              cell_integral_damage_variable;
 
@@ -2103,9 +2103,11 @@ double GradientCrystalPlasticitySolver<dim>::get_macroscopic_damage()
   domain_volume =
     dealii::Utilities::MPI::sum(domain_volume, MPI_COMM_WORLD);
 
-  // Compute the homogenized values
-  macroscopic_damage_variable =
-    domain_integral_damage_variable / domain_volume;
+  // Compute the homogenized values. There is no damage if there are no
+  // grain boundaries
+  if (domain_volume > 0.)
+    macroscopic_damage_variable =
+      domain_integral_damage_variable / domain_volume;
 
   return macroscopic_damage_variable;
 }
-- 
2.43.0


From 51c6da746aa0dd9f70a4354b967268a90483c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:08 +0000
Subject: [PATCH 36/48] fix: the vectorial microstress is dimensionless in
 every dimensionless problem

Also in one whose characteristic stress and slip resistance coincide.
---
 source/gradient_crystal_plasticity/setup.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/setup.cc b/source/gradient_crystal_plasticity/setup.cc
index c7d4733..f54ed93 100644
--- a/source/gradient_crystal_plasticity/setup.cc
+++ b/source/gradient_crystal_plasticity/setup.cc
@@ -107,7 +107,7 @@ void GradientCrystalPlasticitySolver<dim>::init()
 
   vectorial_microstress_law->init(
     parameters.dimensionless_form_parameters.
-      dimensionless_numbers[3] != 1.0);
+      flag_solve_dimensionless_problem);
 
   init_quadrature_point_history();
 
-- 
2.43.0


From 2c39918f52a8c02cfa21e0caae39e8c6b8066f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:09 +0000
Subject: [PATCH 37/48] fix: scale the Neumann term like the rest of the
 momentum balance

---
 source/gradient_crystal_plasticity/assembly.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 1861782..ea7fae8 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -1132,9 +1132,16 @@ void GradientCrystalPlasticitySolver<dim>::assemble_local_residual(
             scratch.face_vector_phi[i] =
               fe_face_values[fe_field->get_displacement_extractor(crystal_id)].value(i,face_q_point);
 
+          const double factor =
+            parameters.dimensionless_form_parameters.
+              dimensionless_numbers[3] /
+                parameters.dimensionless_form_parameters.
+                  dimensionless_numbers[0];
+
           // Loop over degrees of freedom
           for (unsigned int i = 0; i < scratch.dofs_per_cell; ++i)
             data.local_rhs(i) +=
+              factor *
               scratch.face_vector_phi[i] *
               scratch.neumann_boundary_values[face_q_point] *
               scratch.face_JxW_values[face_q_point];
-- 
2.43.0


From 43a60846fb2cdeac505cd00d1597a7cc84b6b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:09 +0000
Subject: [PATCH 38/48] fix: the cell tasks do not set the time of shared
 boundary functions

---
 source/gradient_crystal_plasticity/assembly.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index ea7fae8..95a9d26 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -638,6 +638,12 @@ double GradientCrystalPlasticitySolver<dim>::assemble_residual()
   // Reset data
   residual = 0.0;
 
+  // Update the time of the Neumann boundary functions, which are shared
+  // by the tasks assembling the cells
+  for (const auto &neumann_boundary_condition : neumann_boundary_conditions)
+    neumann_boundary_condition.second->set_time(
+      discrete_time.get_next_time());
+
   // Set up the lambda function for the local assembly operation
   auto worker = [this](
     const CellIterator                         &cell,
@@ -1113,9 +1119,6 @@ void GradientCrystalPlasticitySolver<dim>::assemble_local_residual(
 
         // Compute the Neumann boundary function values at the
         // quadrature points
-        neumann_boundary_conditions.at(face->boundary_id())->set_time(
-          discrete_time.get_next_time());
-
         neumann_boundary_conditions.at(face->boundary_id())->value_list(
           fe_face_values.get_quadrature_points(),
           scratch.neumann_boundary_values);
-- 
2.43.0


From 689ea59e305c90185ed3bc49aceb6f45f2dc27d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 39/48] fix: micro-hard grain boundaries constrain the slips
 and nothing else

---
 applications/simple_shear.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index 13c4ba6..ac1cba2 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -485,7 +485,10 @@ void SimpleShearProblem<dim>::setup_constraints()
               for (unsigned int i = 0;
                    i < local_face_dof_indices.size(); ++i)
               {
-                if (fe_field->get_global_component(crystal_id, i) >= dim)
+                if (fe_field->get_global_component(
+                      crystal_id,
+                      fe_field->get_fe_collection()[crystal_id].
+                        face_to_cell_index(i, face_index)) >= dim)
                 {
                   affine_constraints.add_line(
                     local_face_dof_indices[i]);
@@ -586,7 +589,10 @@ void SimpleShearProblem<dim>::setup_constraints()
               for (unsigned int i = 0;
                    i < local_face_dof_indices.size(); ++i)
               {
-                if (fe_field->get_global_component(crystal_id, i) >= dim)
+                if (fe_field->get_global_component(
+                      crystal_id,
+                      fe_field->get_fe_collection()[crystal_id].
+                        face_to_cell_index(i, face_index)) >= dim)
                 {
                   newton_method_constraints.add_line(
                     local_face_dof_indices[i]);
-- 
2.43.0


From ad2713aa3f0a3d18669c430e39c39fd929b02b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:30 +0000
Subject: [PATCH 40/48] fix: the table of the solution algorithm has a load
 step in every row

---
 source/gradient_crystal_plasticity/solve.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 71bb678..1993088 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -164,6 +164,10 @@ solve_nonlinear_system(const bool flag_skip_extrapolation)
     break;
   }
 
+  table_handler.add_value(
+    "LoadStep",
+    discrete_time.get_step_number() + 1);
+
   // Compute and store the opening displacement at the quadrature
   // points based on the converged solution
   store_effective_opening_displacement_in_quadrature_history();
-- 
2.43.0


From e0f17a53d04a369027b55a9da645e89f60847fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:25 +0000
Subject: [PATCH 41/48] fix: one process writes the copy of the infinite
 strip's parameter file

---
 source/run_time_parameters.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/run_time_parameters.cc b/source/run_time_parameters.cc
index 33619e5..fe9f1f5 100644
--- a/source/run_time_parameters.cc
+++ b/source/run_time_parameters.cc
@@ -2144,9 +2144,10 @@ InfiniteStripProblem()
     }
     prm.leave_subsection();
 
-    prm.print_parameters(
-      output_folder_path + "parameter_file.prm",
-      dealii::ParameterHandler::OutputStyle::ShortPRM);
+    if ((dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD) == 0))
+      prm.print_parameters(
+        output_folder_path + "parameter_file.prm",
+        dealii::ParameterHandler::OutputStyle::ShortPRM);
   }
 }
 
-- 
2.43.0


From efa4cdba2ae7c0a47ea6c1626a6d653c7d006afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:26 +0000
Subject: [PATCH 42/48] fix: the strip's periodicity skips the faces of
 artificial cells

---
 applications/simple_shear.cc | 64 +++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index ac1cba2..0723aff 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -369,28 +369,42 @@ void SimpleShearProblem<dim>::setup_constraints()
 
   const unsigned int upper_boundary_id = 3;
 
-  // Initiate the entity needed for periodic boundary conditions
-  std::vector<
-    dealii::GridTools::
-    PeriodicFacePair<typename dealii::DoFHandler<dim>::cell_iterator>>
-      periodicity_vector;
-
-  dealii::GridTools::collect_periodic_faces(
-    fe_field->get_dof_handler(),
-    0,
-    1,
-    0,
-    periodicity_vector);
+  // The periodic constraints are set up for the pairs of active faces. Those
+  // of artificial cells are skipped as they have no finite element assigned
+  const auto make_periodicity_constraints =
+    [&](dealii::AffineConstraints<double> &constraints)
+    {
+      for (const auto &[first, second] :
+           triangulation.get_periodic_face_map())
+      {
+        const typename dealii::DoFHandler<dim>::cell_iterator
+          cell(&triangulation,
+               first.first->level(),
+               first.first->index(),
+               &fe_field->get_dof_handler()),
+          neighbor(&triangulation,
+                   second.first.first->level(),
+                   second.first.first->index(),
+                   &fe_field->get_dof_handler());
+
+        // Each pair is listed in both directions
+        if (first.second % 2 != 0 ||
+            !cell->is_active() || cell->is_artificial() ||
+            !neighbor->is_active() || neighbor->is_artificial())
+        {
+          continue;
+        }
 
-  if (dim == 3)
-  {
-    dealii::GridTools::collect_periodic_faces(
-      fe_field->get_dof_handler(),
-      4,
-      5,
-      2,
-      periodicity_vector);
-  }
+        dealii::DoFTools::make_periodicity_constraints(
+          cell->face(first.second),
+          neighbor->face(second.first.second),
+          constraints,
+          dealii::ComponentMask(),
+          second.second[0],
+          second.second[1],
+          second.second[2]);
+      }
+    };
 
   // Initiate the actual constraints – boundary conditions – of the problem
   dealii::AffineConstraints<double> affine_constraints;
@@ -500,9 +514,7 @@ void SimpleShearProblem<dim>::setup_constraints()
       }
     }
 
-    dealii::DoFTools::make_periodicity_constraints<dim, dim>(
-      periodicity_vector,
-      affine_constraints);
+    make_periodicity_constraints(affine_constraints);
   }
   affine_constraints.close();
 
@@ -604,9 +616,7 @@ void SimpleShearProblem<dim>::setup_constraints()
       }
     }
 
-    dealii::DoFTools::make_periodicity_constraints<dim, dim>(
-      periodicity_vector,
-      newton_method_constraints);
+    make_periodicity_constraints(newton_method_constraints);
   }
   newton_method_constraints.close();
 
-- 
2.43.0


From 3c432355a57248e5dc2163305083bb85a20824d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:13 +0000
Subject: [PATCH 43/48] fix: vectors of the solution carry owned, contiguous
 degrees of freedom for the output

---
 source/fe_field.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/fe_field.cc b/source/fe_field.cc
index dfc4dc5..9d66e10 100644
--- a/source/fe_field.cc
+++ b/source/fe_field.cc
@@ -342,8 +342,11 @@ void FEField<dim>::setup_dofs()
       block_component[i] = 1;
     }
 
-    dealii::DoFRenumbering::component_wise(
-      *dof_handler, block_component);
+    // In a single block each process keeps its contiguous range of
+    // degrees of freedom, which is what dealii::DataOut relies on
+    if (!flag_use_single_block)
+      dealii::DoFRenumbering::component_wise(
+        *dof_handler, block_component);
 
     dofs_per_block =
       dealii::DoFTools::count_dofs_per_fe_block(
@@ -583,6 +586,7 @@ void FEField<dim>::setup_vectors()
 
   // BlockVector instances
   solution.reinit(
+    locally_owned_dofs_per_block,
     locally_relevant_dofs_per_block,
     MPI_COMM_WORLD);
 
-- 
2.43.0


From e60d4cc1e62597b64d5fbdfd3876a96ec1ba5b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:59 +0000
Subject: [PATCH 44/48] fix: latent hardening of the slip systems which do not
 flow

---
 source/gradient_crystal_plasticity/setup.cc | 32 ++++++++++-----------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/source/gradient_crystal_plasticity/setup.cc b/source/gradient_crystal_plasticity/setup.cc
index f54ed93..43ae314 100644
--- a/source/gradient_crystal_plasticity/setup.cc
+++ b/source/gradient_crystal_plasticity/setup.cc
@@ -642,30 +642,28 @@ reset_and_update_slip_resistances()
           (1.0 - hardening_parameter)*(self_hardening ? 1.0 : 0.0)));
     };
 
+  // Through the latent hardening also the slip systems, which do not
+  // flow, harden
   for (const auto locally_owned_inelastic_dof :
         fe_field->get_locally_owned_plastic_slip_dofs())
   {
-    if (locally_owned_active_set.is_element(
-          locally_owned_inelastic_dof))
-    {
-      const std::vector<dealii::types::global_dof_index> dofs =
-        dof_to_info[locally_owned_inelastic_dof].first;
-
-      const unsigned int current_slip_id =
-        dof_to_info[locally_owned_inelastic_dof].second;
+    const std::vector<dealii::types::global_dof_index> dofs =
+      dof_to_info[locally_owned_inelastic_dof].first;
 
-      double hardening = 0.0;
+    const unsigned int current_slip_id =
+      dof_to_info[locally_owned_inelastic_dof].second;
 
-      for (unsigned int slip_id = 0; slip_id < fe_field->get_n_slips();
-            slip_id++)
-      {
-        hardening += get_hardening_modulus(current_slip_id == slip_id) *
-          std::abs(trial_solution(dofs[slip_id]) -
-            fe_field->old_solution(dofs[slip_id]));
-      }
+    double hardening = 0.0;
 
-      slip_resistance(locally_owned_inelastic_dof) += hardening;
+    for (unsigned int slip_id = 0; slip_id < fe_field->get_n_slips();
+          slip_id++)
+    {
+      hardening += get_hardening_modulus(current_slip_id == slip_id) *
+        std::abs(trial_solution(dofs[slip_id]) -
+          fe_field->old_solution(dofs[slip_id]));
     }
+
+    slip_resistance(locally_owned_inelastic_dof) += hardening;
   }
 }
 
-- 
2.43.0


From 7a6cfec86391e5f284ecacf5a62c541b7ccdd8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:59 +0000
Subject: [PATCH 45/48] fix: inactive slips keep their old values when the
 Newton loop restarts

---
 source/gradient_crystal_plasticity/solve.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 1993088..d880936 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -341,6 +341,8 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
           reset_trial_solution(true);
 
+          reset_inactive_set_values();
+
           *pcout
             << std::endl
             << "Active set mismatch. Restarting Newton-loop with the "
-- 
2.43.0


From e036062839ce4eda613b082fc996cc1cd5415a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:59 +0000
Subject: [PATCH 46/48] fix: the updates of the active set during a step are
 bounded

---
 source/gradient_crystal_plasticity/solve.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index d880936..38a7f64 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -184,7 +184,8 @@ template <int dim>
 void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 {
   // Instance local variables and references
-  unsigned int nonlinear_iteration = 0;
+  unsigned int nonlinear_iteration = 0,
+               n_active_set_updates = 0;
 
   bool flag_successful_convergence = false,
        flag_compute_active_set = true;
@@ -339,6 +340,15 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
           nonlinear_iteration = 0;
 
+          average_order_of_convergence = 0.;
+
+          // The active set may alternate endlessly
+          n_active_set_updates++;
+
+          AssertThrow(
+            n_active_set_updates <= newton_parameters.n_max_iterations,
+            ExcMaxIterations(newton_parameters.n_max_iterations));
+
           reset_trial_solution(true);
 
           reset_inactive_set_values();
-- 
2.43.0


From 4ce5558b661bb28bc6b117e140cc2a73d6ae40c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:59 +0000
Subject: [PATCH 47/48] fix: the staggered algorithms end with the active set
 of their solution

---
 include/gCP/gradient_crystal_plasticity.h     |  6 +++
 .../gradient_crystal_plasticity/active_set.cc | 31 ++++++++++++
 source/gradient_crystal_plasticity/solve.cc   | 49 ++++++++++++++-----
 3 files changed, 75 insertions(+), 11 deletions(-)

diff --git a/include/gCP/gradient_crystal_plasticity.h b/include/gCP/gradient_crystal_plasticity.h
index 087e256..859107f 100644
--- a/include/gCP/gradient_crystal_plasticity.h
+++ b/include/gCP/gradient_crystal_plasticity.h
@@ -435,6 +435,12 @@ private:
 
   void active_set_algorithm(bool &flag_compute_active_set);
 
+  /*!
+   * @brief Recomputes the active set based on the current trial
+   * solution and returns whether it differs from the previous one
+   */
+  bool active_set_has_changed();
+
   void determine_active_set();
 
   void determine_inactive_set();
diff --git a/source/gradient_crystal_plasticity/active_set.cc b/source/gradient_crystal_plasticity/active_set.cc
index 624eba4..920bc0d 100644
--- a/source/gradient_crystal_plasticity/active_set.cc
+++ b/source/gradient_crystal_plasticity/active_set.cc
@@ -39,6 +39,30 @@ void GradientCrystalPlasticitySolver<dim>::active_set_algorithm(
 }
 
 
+template<int dim>
+bool GradientCrystalPlasticitySolver<dim>::active_set_has_changed()
+{
+  if (!parameters.constitutive_laws_parameters.
+        scalar_microstress_law_parameters.flag_rate_independent)
+  {
+    return false;
+  }
+
+  const dealii::IndexSet original_active_set = locally_owned_active_set;
+
+  bool flag_compute_active_set = true;
+
+  active_set_algorithm(flag_compute_active_set);
+
+  // The decision has to be the same in all processes
+  return (dealii::Utilities::MPI::max(
+            static_cast<unsigned int>(
+              original_active_set != locally_owned_active_set),
+            MPI_COMM_WORLD) != 0);
+}
+
+
+
 template<int dim>
 void GradientCrystalPlasticitySolver<dim>::determine_active_set()
 {
@@ -347,6 +371,13 @@ active_set_algorithm(bool &);
 template void gCP::GradientCrystalPlasticitySolver<3>::
 active_set_algorithm(bool &);
 
+// Explicit instantiations
+template bool gCP::GradientCrystalPlasticitySolver<2>::
+active_set_has_changed();
+
+template bool gCP::GradientCrystalPlasticitySolver<3>::
+active_set_has_changed();
+
 // Explicit instantiations
 template void gCP::GradientCrystalPlasticitySolver<2>::
 determine_active_set();
diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 38a7f64..6bc374a 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -458,6 +458,14 @@ void GradientCrystalPlasticitySolver<dim>::bouncing_algorithm()
       // loop, the solution is considered as found.
       if (flag_successful_micro_convergence)
       {
+        // The active set may not be the one of the converged solution
+        if (active_set_has_changed())
+        {
+          flag_successful_micro_convergence = false;
+
+          continue;
+        }
+
         flag_successful_convergence = true;
 
         nonlinear_solver_logger.log_to_all("  Solution converges!");
@@ -495,6 +503,15 @@ void GradientCrystalPlasticitySolver<dim>::bouncing_algorithm()
 
         flag_compute_active_set = true;
 
+        // Revert the plastic slips to the initial trial solution
+        // values (Must preceed the determination of the active set, as
+        // the inactive slips are reset to their old values)
+        if (parameters.staggered_algorithm_parameters.
+              flag_reset_trial_solution_at_micro_loop)
+        {
+          reset_trial_solution(true, BlockIndex::Micro);
+        }
+
         // Determine the active (and also inactive) set
         active_set_algorithm(flag_compute_active_set);
 
@@ -509,14 +526,6 @@ void GradientCrystalPlasticitySolver<dim>::bouncing_algorithm()
 
         debug_output();
 
-        // Revert the plastic slips to the initial trial solution
-        // values
-        if (parameters.staggered_algorithm_parameters.
-              flag_reset_trial_solution_at_micro_loop)
-        {
-          reset_trial_solution(true, BlockIndex::Micro);
-        }
-
         double local_average_micro_order_of_convergence = 0.;
 
         line_search =
@@ -838,6 +847,20 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
       flag_successful_macro_convergence &&
       flag_successful_micro_convergence;
 
+    // The active set may not be the one of the converged solution
+    if (flag_successful_convergence && active_set_has_changed())
+    {
+      flag_successful_convergence = false;
+
+      store_trial_solution();
+
+      reset_and_update_internal_variables();
+
+      assemble_residual();
+
+      residual_l2_norms = fe_field->get_sub_l2_norms(residual);
+    }
+
     if (!flag_successful_convergence)
     {
       // Increase iteration counter
@@ -935,15 +958,19 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
       // Increase iteration counter
       micro_nonlinear_iteration = 0;
 
-      // Determine the active (and also inactive) set
-      active_set_algorithm(flag_compute_active_set);
-
+      // Must preceed the determination of the active set, as the
+      // inactive slips are reset to their old values
       if (parameters.staggered_algorithm_parameters.
             flag_reset_trial_solution_at_micro_loop)
       {
         reset_trial_solution(true, BlockIndex::Micro);
       }
 
+      // Determine the active (and also inactive) set
+      flag_compute_active_set = true;
+
+      active_set_algorithm(flag_compute_active_set);
+
       line_search =
         std::make_unique<gCP::LineSearch>(
           parameters.staggered_algorithm_parameters.
-- 
2.43.0


From 90bc28d0a4f54e346505871c475de2524dc99048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:08 +0000
Subject: [PATCH 48/48] fix: finite average convergence if the embracing
 algorithm needs one iteration only

---
 source/gradient_crystal_plasticity/solve.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 6bc374a..2df129c 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -1106,8 +1106,9 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
           average_macro_order_of_convergence / macro_nonlinear_iteration);
         table_handler.add_value(
           "ReducedMacroAverageConvergence",
-          reduced_average_macro_order_of_convergence /
-            (macro_nonlinear_iteration - 1));
+          macro_nonlinear_iteration > 1 ?
+            reduced_average_macro_order_of_convergence /
+              (macro_nonlinear_iteration - 1) : 0.0);
         table_handler.add_value(
           "MicroAverageConvergence",
           average_micro_order_of_convergence / macro_nonlinear_iteration);
-- 
2.43.0

