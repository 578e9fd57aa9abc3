// Helpers shared by the harnesses: deal.II set-up, crystals from enumerated data.
#pragma once
#include "vp.h"
#include <gCP/crystal_data.h>
#include <gCP/run_time_parameters.h>
#include <deal.II/base/exceptions.h>
#include <deal.II/base/mpi.h>
#include <deal.II/base/multithread_info.h>
#include <deal.II/base/symmetric_tensor.h>
#include <deal.II/base/tensor.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/tria.h>
#include <array>
#include <memory>

namespace vp
{
struct Init
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi;
  Init(int &argc, char **&argv) : mpi(argc, argv, 1)
  {
    dealii::deal_II_exceptions::disable_abort_on_exception();
  }
};

using Row = std::vector<double>;

inline void write_rows(const std::string &file, const std::vector<Row> &rows)
{
  std::ofstream o(file);
  for (auto &r : rows)
    {
      for (size_t i = 0; i < r.size(); ++i) o << (i ? "," : "") << num(r[i]);
      o << "\n";
    }
}

// A row of n unit cells, cell i having material id mat[i].
template <int dim>
void row_mesh(dealii::Triangulation<dim> &tria, const std::vector<unsigned> &mat, const std::array<double, 3> &h = {{1., 1., 1.}})
{
  std::vector<unsigned int> rep(dim, 1);
  rep[0] = mat.size();
  dealii::Point<dim> p1, p2;
  p2[0] = h[0] * mat.size();
  for (int d = 1; d < dim; ++d) p2[d] = h[d];
  dealii::GridGenerator::subdivided_hyper_rectangle(tria, rep, p1, p2, true);
  for (auto &cell : tria.active_cell_iterators())
    cell->set_material_id(mat[std::min<unsigned>(mat.size() - 1, (unsigned)(cell->center()[0] / h[0]))]);
}

template <int dim>
std::shared_ptr<gCP::CrystalsData<dim>>
make_crystals(const std::string &dir, const std::vector<Row> &angles, const std::vector<Row> &directions,
              const std::vector<Row> &normals, const dealii::Triangulation<dim> *tria = nullptr)
{
  write_rows(dir + "/angles.txt", angles);
  write_rows(dir + "/directions.txt", directions);
  write_rows(dir + "/normals.txt", normals);
  dealii::Triangulation<dim> own;
  if (!tria)
    {
      std::vector<unsigned> m;
      for (unsigned i = 0; i < angles.size(); ++i) m.push_back(i);
      row_mesh<dim>(own, m);
      tria = &own;
    }
  auto c = std::make_shared<gCP::CrystalsData<dim>>();
  c->init(*tria, dir + "/angles", dir + "/directions", dir + "/normals");
  return c;
}

// Independent rotation: z-x-z Euler angles in degrees (3-D) or one angle (2-D).
inline void rotation(const Row &a, double R[3][3])
{
  const double r = 3.14159265358979323846 / 180.0;
  if (a.size() == 1)
    {
      double c = std::cos(a[0] * r), s = std::sin(a[0] * r);
      double M[3][3] = {{c, -s, 0}, {s, c, 0}, {0, 0, 1}};
      memcpy(R, M, sizeof(M));
      return;
    }
  double c1 = std::cos(a[0] * r), s1 = std::sin(a[0] * r), c2 = std::cos(a[1] * r), s2 = std::sin(a[1] * r),
         c3 = std::cos(a[2] * r), s3 = std::sin(a[2] * r);
  // Rz(a0) Rx(a1) Rz(a2)
  double M[3][3] = {{c1 * c3 - s1 * c2 * s3, -c1 * s3 - s1 * c2 * c3, s1 * s2},
                    {s1 * c3 + c1 * c2 * s3, -s1 * s3 + c1 * c2 * c3, -c1 * s2},
                    {s2 * s3, s2 * c3, c2}};
  memcpy(R, M, sizeof(M));
}

inline std::string rowstr(const Row &r)
{
  std::string s;
  for (size_t i = 0; i < r.size(); ++i) s += (i ? "," : "") + shortnum(r[i]);
  return s;
}
template <int dim>
std::string tstr(const dealii::Tensor<1, dim> &t)
{
  std::string s = "(";
  for (int i = 0; i < dim; ++i) s += (i ? "," : "") + shortnum(t[i]);
  return s + ")";
}
} // namespace vp
