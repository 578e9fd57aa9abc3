HEAD = r'''
#include <iostream>
#include <fstream>
#include <cmath>
#include <deal.II/base/mpi.h>
#include <deal.II/base/tensor.h>
#include <deal.II/base/exceptions.h>
#define CHECK(c) do { if (!(c)) { std::cout << "FAILED: " #c << " (line " << __LINE__ << ")" << std::endl; return 1; } } while (0)
'''
CRYS = HEAD + r'''
#include <gCP/crystal_data.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/tria.h>
template <int dim>
std::shared_ptr<gCP::CrystalsData<dim>> crystals(const char *angles, const char *directions, const char *normals, unsigned n)
{
  std::ofstream("angles.txt") << angles;
  std::ofstream("directions.txt") << directions;
  std::ofstream("normals.txt") << normals;
  dealii::Triangulation<dim> tria;
  std::vector<unsigned int> rep(dim, 1);
  rep[0] = n;
  dealii::Point<dim> a, b;
  for (int d = 0; d < dim; ++d) b[d] = d ? 1 : n;
  dealii::GridGenerator::subdivided_hyper_rectangle(tria, rep, a, b, true);
  unsigned i = 0;
  for (auto &c : tria.active_cell_iterators()) c->set_material_id(i++);
  auto p = std::make_shared<gCP::CrystalsData<dim>>();
  p->init(tria, "angles", "directions", "normals");
  return p;
}
'''
MAIN = r'''
int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  using namespace dealii;
  (void)sizeof(Tensor<1,2>);
'''
L = "source/line_search.cc"
C = "source/constitutive_laws.cc"
SEEDS = [
dict(id="N01-older-safeguard", property="N01",
  needs="at least two rejected trials whose cubic model has its minimum between a tenth of the last and a tenth of the last but one trial step",
  breaks="the cubic interpolation is cut off at a tenth of the wrong trial, so that the step is not the safeguarded minimum of the model",
  edits=[(L, "  if (lambda < 0.1*old_lambda)\n    return 0.1*old_lambda;\n  else if (lambda > 0.5*old_lambda)",
             "  if (lambda < 0.1*old_old_lambda)\n    return 0.1*old_lambda;\n  else if (lambda > 0.5*old_lambda)")],
  demo=HEAD + r'''
#include <gCP/line_search.h>
int main()
{
  int inside = 0;
  for (double f1 : {2., 5., 20., 200.})
    for (double f2 : {1.2, 2.0, 4.0, 15., 100.})
      {
        gCP::RunTimeParameters::LineSearchParameters p;
        gCP::LineSearch ls(p);
        ls.reinit(1.0, 1, 1);
        const double l1 = ls.get_lambda(f1, 1.0), l2 = ls.get_lambda(f2, l1);
        // interpolating cubic 1 - 2 x + b x^2 + a x^3 through (l1, f2) and (1, f1)
        const double u = (f2 - 1 + 2 * l1) / (l1 * l1), v = f1 - 1 + 2;
        const double a = (u - v) / (l1 - 1), b = (v * l1 - u) / (l1 - 1);
        const double d = b * b + 6 * a;
        if (a == 0 || d < 0) continue;
        double x = (-b + std::sqrt(d)) / (3 * a);
        if (x > 0.1 * l1 && x < 0.5 * l1) ++inside;
        x = std::max(0.1 * l1, std::min(0.5 * l1, x));
        CHECK(std::abs(x - l2) < 1e-10);
      }
  CHECK(inside > 0);
  return 0;
}
'''),
dict(id="C03-hardening-row", property="C03",
  needs="a hardening material with at least two slip systems that slip at different rates",
  breaks="the derivative of the slip resistance with respect to the other systems uses the rate of the wrong system",
  edits=[(C, "            get_regularization_function_value(\n              compute_slip_rate(q_point, slip_id_alpha)) *\n            get_regularization_function_value(\n              compute_slip_rate(q_point, slip_id_beta));",
             "            get_regularization_function_value(\n              compute_slip_rate(q_point, slip_id_alpha)) *\n            get_regularization_function_value(\n              compute_slip_rate(q_point, slip_id_alpha));")],
  demo=CRYS + "#include <gCP/constitutive_laws.h>" + MAIN + r'''
  auto c = crystals<2>("20\n", "1,0\n1,1\n", "0,1\n-1,1\n", 1);
  gCP::RunTimeParameters::ScalarMicrostressLawParameters p;
  gCP::RunTimeParameters::HardeningLaw h;
  p.regularization_function = gCP::RunTimeParameters::RegularizationFunction::Tanh;
  p.regularization_parameter = 0.1;
  p.flag_rate_independent = false;
  h.flag_perfect_plasticity = false;
  h.linear_hardening_modulus = 10;
  h.hardening_parameter = 1.4;
  gCP::ConstitutiveLaws::ScalarMicrostressLaw<2> law(c, p, h);
  auto J = law.get_jacobian(0, {{0.05}, {-0.2}}, {{0.0}, {0.0}}, {1.0, 2.0}, 1.0);
  CHECK(std::abs(J(0, 1) - 14 * std::tanh(0.5) * std::tanh(-2.0)) < 1e-10);
  CHECK(std::abs(J(0, 1) - J(1, 0)) < 1e-10);
  return 0;
}
'''),
dict(id="C04-length-squared", property="C04",
  needs="a defect energy index other than two together with an energetic length other than one",
  breaks="the modulus of the vectorial microstress is that of a quadratic defect energy",
  edits=[(C, "                std::pow(energetic_length_scale, defect_energy_index);", "                std::pow(energetic_length_scale, 2.0);")],
  demo=CRYS + "#include <gCP/constitutive_laws.h>" + MAIN + r'''
  auto c = crystals<2>("0\n", "1,0\n", "0,1\n", 1);
  gCP::RunTimeParameters::VectorialMicrostressLawParameters p;
  p.energetic_length_scale = 0.5;
  p.initial_slip_resistance = 4.0;
  for (double n : {2.0, 3.0, 1.5})
    {
      p.defect_energy_index = n;
      gCP::ConstitutiveLaws::VectorialMicrostressLaw<2> law(c, p);
      law.init(false);
      Tensor<1,2> g;
      g[0] = 2.0;
      CHECK(std::abs(law.get_vectorial_microstress(0, 0, g)[0] - 4.0 * std::pow(0.5, n) * std::pow(2.0, n - 1.0)) < 1e-10);
    }
  return 0;
}
'''),
dict(id="C05-transposed-3d", property="C05",
  needs="a grain boundary in three dimensions between crystals of different orientation with at least two slip systems",
  breaks="the interaction moduli between the two sides are transposed, so the microtractions derive from no energy",
  edits=[(C, "            slip_normals_current_cell[slip_id_alpha],\n            normal_vector_values[q_point]) *\n           dealii::cross_product_3d(\n            slip_normals_neighbour_cell[slip_id_beta],",
             "            slip_normals_current_cell[slip_id_beta],\n            normal_vector_values[q_point]) *\n           dealii::cross_product_3d(\n            slip_normals_neighbour_cell[slip_id_alpha],")],
  demo=CRYS + "#include <gCP/constitutive_laws.h>" + MAIN + r'''
  auto c = crystals<3>("0,0,0\n30,40,10\n", "1,1,0\n0,1,-1\n", "1,-1,1\n1,1,1\n", 2);
  gCP::RunTimeParameters::MicrotractionLawParameters p;
  p.grain_boundary_modulus = 3.0;
  gCP::ConstitutiveLaws::MicrotractionLaw<3> law(c, p);
  std::vector<Tensor<1,3>> n(1);
  n[0][0] = 0.6; n[0][1] = 0.8;
  auto m = law.get_grain_interaction_moduli(0, 1, n);
  for (int i = 0; i < 2; ++i)
    {
      std::vector<std::vector<double>> a{{0.3}, {-0.2}}, b{{0.1}, {0.4}}, l = a, r = a;
      const double e = 1e-5;
      l[i][0] -= e;
      r[i][0] += e;
      const double d = (law.get_free_energy_density(1, 0, 0, n, b, r) - law.get_free_energy_density(1, 0, 0, n, b, l)) / (2 * e);
      CHECK(std::abs(d + law.get_microtraction(0, i, m, a, b)) < 1e-7);
    }
  return 0;
}
'''),
dict(id="X01-orthogonals-not-normalised", property="X01",
  needs="a three-dimensional slip system given by vectors that are not of unit length",
  breaks="the vector completing the slip system's frame keeps the length of the vectors of the file",
  edits=[("source/crystal_data.cc", "      case 3:\n        reference_slip_orthogonals[i] /= reference_slip_orthogonals[i].norm();\n        break;",
          "      case 3:\n        reference_slip_orthogonals[i] /= reference_slip_directions[i].norm();\n        break;")],
  demo=CRYS + MAIN + r'''
  auto c = crystals<3>("20,30,40\n", "1,1,0\n0,2,-2\n", "1,-1,1\n1,1,1\n", 1);
  for (int s = 0; s < 2; ++s)
    {
      CHECK(std::abs(c->get_slip_orthogonal(0, s).norm() - 1) < 1e-12);
      CHECK(std::abs(c->get_slip_orthogonal(0, s) * c->get_slip_normal(0, s)) < 1e-12);
    }
  return 0;
}
'''),
dict(id="L02-second-crystal-3d", property="L02",
  needs="three dimensions, grain boundaries that may open, at least two crystals",
  breaks="the displacement of the upper boundary is prescribed to the wrong component of the crystals after the first one",
  edits=[("source/boundary_conditions.cc", "      return_vector[component + i*dim] =", "      return_vector[component + i*2] =")],
  demo=HEAD + "#include <gCP/boundary_conditions.h>" + MAIN + r'''
  gCP::RunTimeParameters::SimpleLoading p;
  p.loading_type = gCP::RunTimeParameters::LoadingType::Monotonic;
  p.max_load = 0.1;
  gCP::BoundaryConditions::DisplacementControl<3> f(12, 3, 2.0, true, 1.0, 0);
  return 0;
}
'''.replace("f(12, 3, 2.0, true, 1.0, 0);", r'''f(p, 12, 3, 2.0, true, 1.0, 0);
  f.set_time(0.5);
  Vector<double> v(12);
  f.vector_value(Point<3>(), v);
  for (int i = 0; i < 12; ++i) CHECK(std::abs(v[i] - (i < 9 && i % 3 == 0 ? 0.1 : 0.0)) < 1e-14);''')),
dict(id="O03-decimal-after-scientific", property="O03",
  needs="a table with a decimal column after a scientific one (or a second row)",
  breaks="a decimal value is printed in scientific notation after a scientific value was printed",
  edits=[("source/utilities.cc", "      output_filepath << std::setw(key.length()) << std::right\n        << std::fixed << std::setprecision(precision) << value;",
          "      output_filepath << std::setw(key.length()) << std::right\n        << std::setprecision(precision) << value;")],
  demo=HEAD + "#include <gCP/utilities.h>\n#include <sstream>" + MAIN + r'''
  {
    gCP::Utilities::Logger l("log.txt");
    l.declare_column("Scientific", gCP::Utilities::Logger::Format::Scientific);
    l.declare_column("Decimal", gCP::Utilities::Logger::Format::Decimal);
    for (int i = 0; i < 2; ++i)
      {
        l.update_value("Scientific", 1e-5);
        l.update_value("Decimal", 0.25);
        l.log_to_file();
      }
  }
  std::ifstream f("log.txt");
  std::string line, a, b;
  for (int i = 0; i < 2; ++i)
    {
      CHECK(bool(std::getline(f, line)));
      std::istringstream s(line);
      s >> a >> b;
      CHECK(a == "1.000000e-05" && b == "0.250000");
    }
  return 0;
}
'''),
dict(id="R02-microtraction-exponent", property="R02",
  needs="a dimensionless problem with a reference length other than one",
  breaks="the characteristic microtraction has the dimension of a stress instead of a stress times a length",
  edits=[("source/run_time_parameters.cc", "    std::pow(characteristic_quantities.length,\n             defect_energy_index - 1.0);", "    std::pow(characteristic_quantities.length,\n             defect_energy_index);")],
  demo=HEAD + "#include <gCP/run_time_parameters.h>" + MAIN + r'''
  gCP::RunTimeParameters::ConstitutiveLawsParameters c;
  auto &v = c.vectorial_microstress_law_parameters;
  v.initial_slip_resistance = 3;
  v.defect_energy_index = 2;
  double r[2];
  for (int k = 0; k < 2; ++k)
    {
      // the same material in millimetres and in metres
      gCP::RunTimeParameters::DimensionlessForm d;
      d.flag_solve_dimensionless_problem = true;
      const double s = k ? 1e-3 : 1.0;
      v.energetic_length_scale = 0.5 * s;
      d.characteristic_quantities.length = 4.0 * s;
      d.init(c);
      r[k] = d.characteristic_quantities.micro_traction / s;
    }
  CHECK(std::abs(r[0] - 3 * 0.25 / 4) < 1e-14);
  CHECK(std::abs(r[0] - r[1]) < 1e-12);
  return 0;
}
'''),
dict(id="R01-pseudo-balance-section", property="R01",
  needs="a staggered solver whose two subproblems are given different tolerances",
  breaks="the parameters of the pseudo-balance are read from the section of the momentum balance",
  edits=[("source/run_time_parameters.cc", "PSEUDO_OLD", "PSEUDO_NEW")], demo=""),
]
SEEDS = [s for s in SEEDS if s["edits"][0][1] != "PSEUDO_OLD"]
