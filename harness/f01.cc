// F01: degrees of freedom of every material layout of small meshes against
// the layout computed from the mesh geometry alone.
#include "gcp_util.h"
#include <gCP/fe_field.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/fe/mapping_q1.h>
#include <deal.II/dofs/dof_tools.h>
using namespace vp;

struct Id { int kind; unsigned crystal, comp; long x[3]; // kind 0 displacement, 1 slip
  bool operator<(const Id &o) const { return std::tie(kind, crystal, comp, x[0], x[1], x[2]) < std::tie(o.kind, o.crystal, o.comp, o.x[0], o.x[1], o.x[2]); } };

template <int dim>
void check_field(Explorer &ex, const gCP::FEField<dim> &f, unsigned nc, unsigned ns, unsigned pu, unsigned ps, bool dec, bool single, const std::string &who)
{
  using namespace dealii;
  const auto &dh = f.get_dof_handler();
  const unsigned ncomp = (dec ? dim * nc : dim) + ns * nc;
  ex.check(f.get_n_components() == ncomp, "components", who + "number of components " + std::to_string(f.get_n_components()) + " instead of " + std::to_string(ncomp));
  ex.check(f.get_n_crystals() == nc && f.get_n_slips() == ns && f.get_displacement_fe_degree() == pu && f.get_slips_fe_degree() == ps && f.is_decohesion_allowed() == dec,
           "getters", who + "the getters do not return the constructor's arguments");
  // the documented component layout
  for (unsigned c = 0; c < nc; ++c)
    {
      ex.check(f.get_displacement_extractor(c).first_vector_component == (dec ? c * dim : 0), "displacement-extractor", who + "crystal " + std::to_string(c));
      for (unsigned s = 0; s < ns; ++s)
        ex.check(f.get_slip_extractor(c, s).component == (dec ? dim * nc : dim) + c * ns + s, "slip-extractor", who + "crystal " + std::to_string(c));
    }
  if (f.get_n_components() != ncomp) return;
  const unsigned q = pu * ps * 2; // lattice of support points
  std::map<Id, std::set<types::global_dof_index>> dofs;
  std::map<types::global_dof_index, Id> owner;
  bool ok = true;
  for (const auto &cell : dh.active_cell_iterators())
    {
      const unsigned c = cell->material_id();
      const auto &fe = cell->get_fe();
      ex.check(cell->active_fe_index() == c, "fe-index", who + "a cell does not use its crystal's element");
      std::vector<types::global_dof_index> l(fe.n_dofs_per_cell());
      cell->get_dof_indices(l);
      ex.check(l.size() == dim * (unsigned)std::pow(pu + 1, dim) + ns * (unsigned)std::pow(ps + 1, dim), "dofs-per-cell", who + "cell has " + std::to_string(l.size()) + " unknowns");
      for (unsigned i = 0; i < l.size(); ++i)
        {
          // which component is this shape function really non-zero in?
          const Point<dim> u = fe.unit_support_point(i);
          unsigned nz = 0, comp = 0;
          for (unsigned k = 0; k < ncomp; ++k)
            if (std::abs(fe.shape_value_component(i, u, k)) > 1e-12) { nz++; comp = k; }
          if (!ex.check(nz == 1, "one-component", who + "a shape function is non-zero in " + std::to_string(nz) + " components")) { ok = false; continue; }
          Id id{};
          unsigned expect_local;
          if (comp < (dec ? dim * nc : dim))
            { id.kind = 0; id.crystal = dec ? comp / dim : 0; id.comp = comp % dim; expect_local = id.comp; if (dec) ex.check(id.crystal == c, "foreign-displacement", who + "a cell carries another crystal's displacement"); }
          else
            { unsigned k = comp - (dec ? dim * nc : dim); id.kind = 1; id.crystal = k / ns; id.comp = k % ns; expect_local = dim + id.comp; ex.check(id.crystal == c, "foreign-slip", who + "a cell carries another crystal's slip"); }
          ex.check(f.get_global_component(c, i) == expect_local, "local-component", who + "get_global_component gives " + std::to_string(f.get_global_component(c, i)) + " instead of " + std::to_string(expect_local));
          for (unsigned d = 0; d < dim; ++d)
            id.x[d] = lround((cell->vertex(0)[d] + u[d] * (cell->vertex((1 << dim) - 1)[d] - cell->vertex(0)[d])) * 4 * q);
          dofs[id].insert(l[i]);
          auto it = owner.find(l[i]);
          if (it == owner.end()) owner.emplace(l[i], id);
          else ex.check(!(it->second < id) && !(id < it->second), "one-owner", who + "an unknown belongs to two components or places");
          ex.transition();
        }
    }
  if (!ok) return;
  // several unknowns at one point are one if constraints identify them
  const auto &con = f.get_hanging_node_constraints();
  auto root = [&](types::global_dof_index d) {
    for (int k = 0; k < 3 && con.is_constrained(d); ++k)
      {
        auto *e = con.get_constraint_entries(d);
        if (e->size() != 1 || (*e)[0].second != 1. || con.get_inhomogeneity(d) != 0.) return numbers::invalid_dof_index;
        d = (*e)[0].first;
      }
    return d;
  };
  unsigned long merged = 0;
  for (auto &p : dofs)
    {
      std::set<types::global_dof_index> r;
      for (auto d : p.second)
        {
          r.insert(root(d));
          ex.check(!con.is_constrained(d) || dofs[p.first].count(root(d)), "identity", who + "a constraint ties different fields or points");
        }
      merged += p.second.size() - 1;
      ex.check(r.size() == 1 && *r.begin() != numbers::invalid_dof_index, p.first.kind == 0 ? "displacement-continuity" : "slip-continuity", who + "a field has " + std::to_string(p.second.size()) + " unknowns at one point");
    }
  ex.check(owner.size() == f.n_dofs() && f.n_dofs() == dh.n_dofs() && dofs.size() + merged == f.n_dofs() && con.n_constraints() == merged, "count", who + "there are unknowns of no field");
  // index sets
  const IndexSet &u = f.get_locally_owned_displacement_dofs(), &g = f.get_locally_owned_plastic_slip_dofs(), &all = f.get_locally_owned_dofs();
  unsigned long nu = 0;
  for (auto &p : owner)
    {
      nu += p.second.kind == 0;
      ex.check(u.is_element(p.first) == (p.second.kind == 0), "displacement-set", who + "unknown " + std::to_string(p.first));
      ex.check(g.is_element(p.first) == (p.second.kind == 1), "slip-set", who + "unknown " + std::to_string(p.first));
      ex.check(all.is_element(p.first) && f.get_locally_relevant_dofs().is_element(p.first), "owned-set", who);
      if (!single) ex.check((p.first < f.get_n_displacement_dofs()) == (p.second.kind == 0), "blocks", who + "the two blocks are not those of the displacements and of the slips");
    }
  ex.check(f.get_n_displacement_dofs() == nu && f.get_n_plastic_slip_dofs() == owner.size() - nu, "numbers", who + "n_displacement_dofs " + std::to_string(f.get_n_displacement_dofs()) + " instead of " + std::to_string(nu));
  for (auto *b : {&f.get_locally_owned_dofs_per_block(), &f.get_locally_relevant_dofs_per_block()})
    if (ex.check(b->size() == (single ? 1u : 2u), "n-blocks", who + "wrong number of blocks"))
      {
        ex.check((*b)[0].size() == (single ? owner.size() : nu) && (*b)[0].n_elements() == (*b)[0].size(), "block-0", who);
        if (!single) ex.check((*b)[1].size() == owner.size() - nu && (*b)[1].n_elements() == (*b)[1].size(), "block-1", who);
      }
}

template <int dim>
void run(Explorer &ex)
{
  using namespace dealii;
  std::vector<std::vector<unsigned>> shapes;
  if (dim == 2) shapes = {{1, 1}, {2, 1}, {3, 1}, {2, 2}};
  else shapes = {{1, 1, 1}, {2, 1, 1}, {1, 2, 2}};
  if (!ex.quick) shapes.push_back(dim == 2 ? std::vector<unsigned>{3, 2} : std::vector<unsigned>{2, 2, 2});
  for (auto &sh : shapes)
    {
      unsigned ncell = 1;
      for (auto s : sh) ncell *= s;
      for (unsigned nc : {1u, 2u, 3u})
        {
          if (ncell >= 6 && nc == 3 && dim == 3) continue;
          std::vector<int> mat(ncell, 0);
          do
            for (unsigned ns : {1u, 2u, 3u})
              for (unsigned pu : {1u, 2u})
                for (unsigned ps : {1u, 2u})
                  for (int dec = 0; dec < 2; ++dec)
                    for (int single = 0; single < 2; ++single)
                      {
                        if (dim == 3 && ex.quick && (ns == 2 || (pu == 2 && ps == 2 && ncell > 2))) continue;
                        if (ncell >= 6 && (ns == 3 || (dim == 3 && pu * ps > 2))) continue;
                        std::string key = "dim=" + std::to_string(dim) + ";mesh=";
                        for (auto s : sh) key += std::to_string(s) + "x";
                        key += ";crystals=" + std::to_string(nc) + ";grains=";
                        for (auto m : mat) key += std::to_string(m);
                        key += ";slips=" + std::to_string(ns) + ";pu=" + std::to_string(pu) + ";ps=" + std::to_string(ps) + ";decohesion=" + std::to_string(dec) + ";single=" + std::to_string(single);
                        if (!ex.begin(key)) continue;
                        try
                          {
                            Triangulation<dim> tria;
                            Point<dim> p2;
                            for (int d = 0; d < dim; ++d) p2[d] = sh[d];
                            GridGenerator::subdivided_hyper_rectangle(tria, sh, Point<dim>(), p2);
                            { unsigned i = 0; for (auto &c : tria.active_cell_iterators()) c->set_material_id(mat[i++]); }
                            gCP::FEField<dim> f(tria, pu, ps, dec, single);
                            bool threw = false;
                            try { f.setup_dofs(); } catch (std::exception &) { threw = true; }
                            ex.check(threw, "order", "setup_dofs was accepted before setup_extractors");
                            f.setup_extractors(nc, ns);
                            for (auto &c : f.get_dof_handler().active_cell_iterators()) c->set_active_fe_index(c->material_id());
                            f.setup_dofs();
                            check_field<dim>(ex, f, nc, ns, pu, ps, dec, single, "");
                            gCP::FEField<dim> g(f);
                            check_field<dim>(ex, g, nc, ns, pu, ps, dec, single, "copy: ");
                          }
                        catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
                        ex.state(key);
                        ex.trace();
                        ex.sample(key);
                        ex.end();
                      }
          while (next(mat, std::vector<int>(ncell, nc)));
        }
    }
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  run<2>(ex);
  run<3>(ex);
  return ex.finish();
}
