// A small real FEField carrying an affine displacement and affine slips per crystal.
#pragma once
#include "gcp_util.h"
#include <gCP/constitutive_laws.h>
#include <gCP/fe_field.h>
#include <deal.II/base/function.h>
#include <deal.II/fe/mapping_q.h>
#include <deal.II/numerics/vector_tools.h>

namespace vp
{
// Slip systems rotated by an independent implementation.
struct Slip { double s[3], m[3], l[3]; };
inline std::vector<std::vector<Slip>> rotated_systems(int dim, const std::vector<Row> &angles, const std::vector<Row> &d, const std::vector<Row> &n)
{
  std::vector<std::vector<Slip>> r(angles.size(), std::vector<Slip>(d.size()));
  for (size_t c = 0; c < angles.size(); ++c)
    {
      double R[3][3];
      rotation(angles[c], R);
      for (size_t k = 0; k < d.size(); ++k)
        {
          double a = 0, b = 0;
          for (int i = 0; i < dim; ++i) { a += d[k][i] * d[k][i]; b += n[k][i] * n[k][i]; }
          auto &x = r[c][k];
          for (int i = 0; i < 3; ++i)
            {
              x.s[i] = x.m[i] = 0;
              for (int j = 0; j < dim; ++j) { x.s[i] += R[i][j] * d[k][j] / std::sqrt(a); x.m[i] += R[i][j] * n[k][j] / std::sqrt(b); }
            }
          for (int i = 0; i < 3; ++i) x.l[i] = 0;
          x.l[0] = x.m[1] * x.s[2] - x.m[2] * x.s[1];
          x.l[1] = x.m[2] * x.s[0] - x.m[0] * x.s[2];
          x.l[2] = x.m[0] * x.s[1] - x.m[1] * x.s[0];
        }
    }
  return r;
}
inline long double cubic_entry(const double R[3][3], double c11, double c12, double c44, int i, int j, int k, int l)
{
  long double a = 0;
  for (int m = 0; m < 3; ++m) a += (long double)R[i][m] * R[j][m] * R[k][m] * R[l][m];
  return c12 * (i == j) * (k == l) + c44 * ((i == k) * (j == l) + (i == l) * (j == k)) + ((long double)c11 - c12 - 2.0L * c44) * a;
}
struct M3 { double v[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}; double *operator[](int i) { return v[i]; } const double *operator[](int i) const { return v[i]; } };
inline M3 stress_of(const M3 &e, const Row &angles, const std::array<double, 3> &C)
{
  double R[3][3];
  rotation(angles, R);
  M3 s;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
      long double a = 0;
      for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) a += cubic_entry(R, C[0], C[1], C[2], i, j, k, l) * e[k][l];
      s[i][j] = a;
    }
  return s;
}
inline double von_mises(const M3 &s, double factor)
{
  double t = (s[0][0] + s[1][1] + s[2][2]) / 3, a = 0;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double d = s[i][j] - (i == j) * t; a += d * d; }
  return std::sqrt(factor * a);
}

// Affine data of one crystal: u_i = a_i + G_ij x_j, slip_k = g0_k + g_k . x
struct Affine
{
  double a[3] = {0, 0, 0};
  M3 G;
  std::vector<double> g0;
  std::vector<std::array<double, 3>> g;
  double u(int i, const double *x) const { double r = a[i]; for (int j = 0; j < 3; ++j) r += G[i][j] * x[j]; return r; }
  double slip(int k, const double *x) const { double r = g0[k]; for (int j = 0; j < 3; ++j) r += g[k][j] * x[j]; return r; }
};

template <int dim>
struct AffineField : dealii::Function<dim>
{
  const std::vector<Affine> &f;
  bool dec;
  unsigned ns;
  AffineField(const std::vector<Affine> &f, bool dec, unsigned ns)
    : dealii::Function<dim>((dec ? dim * f.size() : dim) + ns * f.size()), f(f), dec(dec), ns(ns) {}
  double value(const dealii::Point<dim> &p, const unsigned int c) const override
  {
    double x[3] = {0, 0, 0};
    for (int i = 0; i < dim; ++i) x[i] = p[i];
    const unsigned nu = dec ? dim * f.size() : dim;
    if (c < nu) return f[dec ? c / dim : 0].u(c % dim, x);
    return f[(c - nu) / ns].slip((c - nu) % ns, x);
  }
};

template <int dim>
void set_field(gCP::FEField<dim> &field, const std::vector<Affine> &f, const dealii::Mapping<dim> &mapping)
{
  AffineField<dim> fun(f, field.is_decohesion_allowed(), f[0].g0.size());
  dealii::Vector<double> v(field.n_dofs());
  dealii::VectorTools::interpolate(mapping, field.get_dof_handler(), fun, v);
  dealii::LinearAlgebraTrilinos::MPI::BlockVector d;
  d.reinit(field.distributed_vector);
  for (unsigned i = 0; i < v.size(); ++i) d(i) = v(i);
  d.compress(dealii::VectorOperation::insert);
  field.solution = d;
}

template <int dim>
std::unique_ptr<gCP::FEField<dim>> make_field(const dealii::Triangulation<dim> &tria, unsigned nc, unsigned ns, bool dec, unsigned pu = 1, unsigned pg = 1, bool single = false)
{
  auto f = std::make_unique<gCP::FEField<dim>>(tria, pu, pg, dec, single);
  f->setup_extractors(nc, ns);
  for (auto &c : f->get_dof_handler().active_cell_iterators()) c->set_active_fe_index(c->material_id());
  f->setup_dofs();
  dealii::AffineConstraints<double> none;
  none.reinit(f->get_locally_relevant_dofs());
  none.close();
  f->set_affine_constraints(none);
  f->set_newton_method_constraints(none);
  f->setup_vectors();
  return f;
}
} // namespace vp
