// H03: the interface storage over every material layout of small meshes.
#include "gcp_util.h"
#include <gCP/quadrature_point_history.h>
#include <gCP/fe_field.h>
#include <deal.II/grid/filtered_iterator.h>
#include <deal.II/distributed/tria.h>
using namespace vp;

template <int dim>
void run(Explorer &ex)
{
  using namespace dealii;
  using Cell = typename Triangulation<dim>::cell_iterator;
  using Data = gCP::InterfaceQuadraturePointHistory<dim>;
  std::vector<std::vector<unsigned>> shapes;
  if (dim == 2) shapes = {{1, 1}, {2, 1}, {3, 1}, {2, 2}, {3, 2}};
  else shapes = {{2, 1, 1}, {3, 1, 1}, {2, 2, 1}, {2, 2, 2}};
  if (!ex.quick) shapes.push_back(dim == 2 ? std::vector<unsigned>{4, 2} : std::vector<unsigned>{3, 2, 1});
  for (auto &sh : shapes)
    for (int refine = 0; refine < 2; ++refine)
      {
        unsigned ncell = 1;
        for (auto s : sh) ncell *= s;
        const int ngrain = ncell <= 6 ? 3 : 2;
        if (refine && ncell > 3) continue;
        std::vector<int> mat(ncell, 0);
        do
          for (unsigned nq : {1u, 4u})
            {
              std::string key = "dim=" + std::to_string(dim) + ";mesh=";
              for (auto s : sh) key += std::to_string(s) + "x";
              key += ";refined=" + std::to_string(refine) + ";grains=";
              for (auto m : mat) key += std::to_string(m);
              key += ";points=" + std::to_string(nq);
              if (!ex.begin(key)) continue;
              Triangulation<dim> tria;
              Point<dim> p2;
              for (int d = 0; d < dim; ++d) p2[d] = sh[d];
              GridGenerator::subdivided_hyper_rectangle(tria, sh, Point<dim>(), p2);
              { unsigned i = 0; for (auto &c : tria.active_cell_iterators()) c->set_material_id(mat[i++]); }
              if (refine) tria.refine_global(1);
              gCP::InterfaceDataStorage<Cell, Data> st;
              const Cell b = tria.begin_active(), e = tria.end();
              st.initialize(b, e, nq);
              gCP::RunTimeParameters::DamageEvolution de;
              gCP::RunTimeParameters::CohesiveLawParameters cl;
              de.damage_evolution_model = gCP::RunTimeParameters::DamageEvolutionModel::OrtizEtAl;
              cl.critical_cohesive_traction = 1; cl.critical_opening_displacement = 1; cl.tangential_to_normal_stiffness_ratio = 1;
              // face -> expected identity
              std::map<std::pair<CellId, CellId>, std::vector<Data *>> seen;
              std::set<Data *> all;
              const auto &cst = st;
              double mark = 0;
              std::map<Data *, double> marks;
              for (int round = 0; round < 3; ++round)
                {
                  for (const auto &cell : tria.active_cell_iterators())
                    for (const auto &other : tria.active_cell_iterators())
                      {
                        bool gb = false;
                        for (auto f : cell->face_indices())
                          if (!cell->at_boundary(f) && cell->neighbor(f) == other && cell->material_id() != other->material_id()) gb = true;
                        ex.transition();
                        std::vector<std::shared_ptr<Data>> d1, d2;
                        std::vector<std::shared_ptr<const Data>> dc;
                        bool threw = false;
                        if (!gb && round == 2) continue;   // the const-free lookup of a wrong pair is only tried before
                        try { dc = cst.get_data(cell->id(), other->id()); if (gb) { d1 = st.get_data(cell->id(), other->id()); d2 = st.get_data(other->id(), cell->id()); } }
                        catch (std::exception &) { threw = true; }
                        const std::string w = "cells " + cell->id().to_string() + " and " + other->id().to_string();
                        if (!gb) { ex.check(threw, "elsewhere", "there is interface data away from grain boundaries, " + w); continue; }
                        if (!ex.check(!threw, "missing", "no interface data at a grain boundary, " + w)) continue;
                        if (!ex.check(d1.size() == nq && d2.size() == nq && dc.size() == nq, "size", "wrong number of points, " + w)) continue;
                        const CellId id_a = cell->id(), id_b = other->id();
                        const auto k = std::minmax(id_a, id_b);
                        auto &v = seen[{k.first, k.second}];
                        for (unsigned q = 0; q < nq; ++q)
                          {
                            if (!ex.check(d1[q] != nullptr, "null", "null history, " + w)) continue;
                            ex.check(d1[q].get() == d2[q].get() && d1[q].get() == dc[q].get(), "shared", "the two sides get different histories, " + w);
                            if (v.size() <= q)
                              {
                                ex.check(all.insert(d1[q].get()).second, "distinct", "two faces or points share a history, " + w);
                                v.push_back(d1[q].get());
                                d1[q]->init(de, cl);
                                mark += 0.01;
                                d1[q]->update_values(mark);
                                marks[d1[q].get()] = d1[q]->get_max_effective_opening_displacement();
                              }
                            else
                              {
                                ex.check(v[q] == d1[q].get(), "stable", "a later lookup returns another history, " + w);
                                ex.check(marks[d1[q].get()] == d1[q]->get_max_effective_opening_displacement(), "content", "the content did not survive, " + w);
                              }
                          }
                      }
                  if (round == 1) st.initialize(b, e, nq); // repeating the initialisation keeps the data
                }
              ex.state(key);
              ex.trace();
              ex.sample(key);
              ex.end();
            }
        while (next(mat, std::vector<int>(ncell, ngrain)));
      }
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  run<2>(ex);
  run<3>(ex);
  return ex.finish();
}
