// F02: every sequence of vector/constraint operations on a field against a
// reference model; norms against sums over the geometric classification.
#include "gcp_util.h"
#include <gCP/fe_field.h>
#include <deal.II/dofs/dof_tools.h>
using namespace vp;
using namespace dealii;
using BVec = LinearAlgebraTrilinos::MPI::BlockVector;
using Dict = std::map<types::global_dof_index, std::pair<std::map<types::global_dof_index, double>, double>>;

static Dict read(const AffineConstraints<double> &c, unsigned n)
{
  Dict d;
  for (unsigned i = 0; i < n; ++i)
    if (c.is_constrained(i))
      {
        auto &e = d[i];
        for (auto &p : *c.get_constraint_entries(i)) e.first[p.first] = p.second;
        e.second = c.get_inhomogeneity(i);
      }
  return d;
}

// own(right) over left, entries of the left object that refer to dofs constrained by the right one are resolved
static Dict merged(const Dict &left, const Dict &right)
{
  Dict r = left;
  for (auto &p : right) r[p.first] = p.second;
  for (int pass = 0; pass < 4; ++pass)
    for (auto &p : r)
      {
        std::map<types::global_dof_index, double> e;
        for (auto &q : p.second.first)
          {
            auto it = r.find(q.first);
            if (it == r.end()) { e[q.first] += q.second; continue; }
            for (auto &z : it->second.first) e[z.first] += q.second * z.second;
            p.second.second += q.second * it->second.second;
          }
        p.second.first = e;
      }
  return r;
}
static bool same(const Dict &a, const Dict &b)
{
  if (a.size() != b.size()) return false;
  for (auto &p : a)
    {
      auto it = b.find(p.first);
      if (it == b.end() || std::abs(it->second.second - p.second.second) > 1e-13) return false;
      std::map<types::global_dof_index, double> u = p.second.first;
      for (auto &q : it->second.first) u[q.first] -= q.second;
      for (auto &q : u) if (std::abs(q.second) > 1e-13) return false;
    }
  return true;
}

template <int dim>
struct Fixture
{
  Triangulation<dim> tria;
  std::unique_ptr<gCP::FEField<dim>> f;
  std::vector<int> kind; // 0 displacement, 1 slip
  Fixture(int mesh, bool dec, bool single, unsigned ns, unsigned pu)
  {
    row_mesh<dim>(tria, mesh == 0 ? std::vector<unsigned>{0, 1} : std::vector<unsigned>{0, 0});
    if (mesh == 1)
      { tria.begin_active()->set_refine_flag(); tria.execute_coarsening_and_refinement(); }
    f = std::make_unique<gCP::FEField<dim>>(tria, pu, 1, dec, single);
    f->setup_extractors(mesh == 0 ? 2 : 1, ns);
    for (auto &c : f->get_dof_handler().active_cell_iterators()) c->set_active_fe_index(c->material_id());
    f->setup_dofs();
    kind.assign(f->n_dofs(), -1);
    for (auto &c : f->get_dof_handler().active_cell_iterators())
      {
        std::vector<types::global_dof_index> l(c->get_fe().n_dofs_per_cell());
        c->get_dof_indices(l);
        for (unsigned i = 0; i < l.size(); ++i)
          kind[l[i]] = c->get_fe().system_to_component_index(i).first >= (dec ? dim * (mesh == 0 ? 2 : 1) : dim);
      }
  }
};

static double pattern(int p, unsigned i)
{
  switch (p)
    {
      case 0: return 0.;
      case 1: return 1. + i;
      case 2: return (i % 2 ? -1 : 1) * 0.5 / (i + 1);
      case 3: return i % 3 == 0 ? 0. : -2. + 0.25 * i;
      case 4: return (i % 5 - 2.) * 1e7;
      case 5: return (i % 7 - 3.) * 1e-9;
      default: return i == (unsigned)(p - 6) ? 3. : 0.; // unit vectors
    }
}
static void fill(BVec &distributed, int p)
{
  for (unsigned i = 0; i < distributed.size(); ++i) distributed(i) = pattern(p, i);
  distributed.compress(VectorOperation::insert);
}
static bool holds(const BVec &v, int p)
{
  for (unsigned i = 0; i < v.size(); ++i) if (v(i) != pattern(p, i)) return false;
  return true;
}

template <int dim>
void run(Explorer &ex)
{
  // --- norms
  for (int mesh = 0; mesh < 2; ++mesh)
    for (int dec = 0; dec < 2; ++dec)
      for (int single = 0; single < 2; ++single)
        for (unsigned ns : {1u, 2u})
          for (unsigned pu : {1u, 2u})
            {
              const std::string key = "norms;dim=" + std::to_string(dim) + ";mesh=" + std::to_string(mesh) + ";decohesion=" + std::to_string(dec) + ";single=" + std::to_string(single) + ";slips=" + std::to_string(ns) + ";pu=" + std::to_string(pu);
              if (!ex.begin(key)) continue;
              try
                {
                  Fixture<dim> x(mesh, dec, single, ns, pu);
                  auto &f = *x.f;
                  f.setup_vectors();
                  const unsigned n = f.n_dofs();
                  BVec d;
                  d.reinit(f.distributed_vector);
                  BVec ghosted;
                  ghosted.reinit(f.solution);
                  for (int p = 0; p < (int)(6 + n); ++p)
                    for (double factor : {1., 2., 0.25})
                      {
                        fill(d, p);
                        ghosted = d;
                        long double s[2] = {0, 0};
                        for (unsigned i = 0; i < n; ++i) s[x.kind[i]] += (long double)pattern(p, i) * pattern(p, i);
                        const double u = std::sqrt(s[0]), g = std::sqrt(s[1]), all = std::sqrt(s[0] + s[1]);
                        const std::string w = "pattern " + std::to_string(p) + ", factor " + shortnum(factor);
                        ex.transition();
                        for (const BVec *v : {&d, &ghosted})
                          {
                            if (factor == 1.) ex.close(f.get_l2_norm(*v), all, all, 1e-13, "l2", w);
                            try
                              {
                                const auto r = f.get_sub_l2_norms(*v, factor);
                                if (!ex.check(r.size() == 2, "sub-size", w)) continue;
                                ex.close(r[0], u / factor, u / factor, 1e-13, "sub-displacement", w);
                                ex.close(r[1], g, g, 1e-13, "sub-slip", w);
                                if (factor == 1.) ex.close(r[0] * r[0] + r[1] * r[1], all * all, all * all, 1e-12, "pythagoras", w);
                              }
                            catch (std::exception &e) { ex.fail("sub-norm-throws", w + ": the norms " + num(u) + " and " + num(g) + " are rejected"); }
                          }
                        BVec t = f.get_distributed_vector_instance(ghosted);
                        ex.check(!t.has_ghost_elements() && holds(t, p), "instance", "distributed instance differs, " + w);
                      }
                }
              catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
              ex.state(key);
              ex.trace();
              ex.sample(key);
              ex.end();
            }
  // --- operation sequences
  enum { W1, W2, W3, UPD, AFF1, AFF2, NEW1, RESET, COPY, NOPS };
  static const char *names[] = {"write1", "write2", "write3", "update", "affine1", "affine2", "newton1", "reset", "copy"};
  const int depth = ex.quick ? 4 : 5;
  for (int mesh = 0; mesh < 2; ++mesh)
    for (int single = 0; single < 2; ++single)
      {
        std::vector<int> seq(depth, 0);
        do
          {
            std::string key = "ops;dim=" + std::to_string(dim) + ";mesh=" + std::to_string(mesh) + ";single=" + std::to_string(single) + ";seq=";
            for (auto o : seq) key += std::string(names[o]) + ".";
            if (dim == 3 && (mesh == 0 || single)) continue;
            if (!ex.begin(key)) continue;
            try
              {
                Fixture<dim> x(mesh, false, single, 1, 1);
                auto *f = x.f.get();
                bool threw = false;
                ex.check(!f->is_initialized(), "initialized-early", "");
                f->setup_vectors();
                ex.check(!f->is_initialized(), "initialized-early", "without constraints");
                const unsigned n = f->n_dofs();
                const Dict own = read(f->get_hanging_node_constraints(), n);
                ex.check(mesh == 0 ? own.empty() : !own.empty(), "own", "hanging-node constraints");
                Dict ref_a = own, ref_n = own;
                int ref[3] = {0, 0, 0};
                bool set_a = false, set_n = false;
                std::vector<std::unique_ptr<gCP::FEField<dim>>> copies;
                BVec d;
                d.reinit(f->distributed_vector);
                // 1: fix three unknowns, one of them a hanging one if there is any; 2: other values, an overlapping set, and a tie
                auto make = [&](int which, AffineConstraints<double> &c) {
                  c.reinit(f->get_locally_relevant_dofs());
                  std::vector<types::global_dof_index> t;
                  if (!own.empty()) t.push_back(which == 1 ? own.begin()->first : own.rbegin()->first);
                  for (unsigned i = 0; i < n && t.size() < 4; ++i) if (!own.count(i) && (int)(i % 3) == which % 3) t.push_back(i);
                  for (auto i : t) { c.add_line(i); c.set_inhomogeneity(i, which == 3 ? 0. : 0.5 * which + i); }
                  if (which == 2)
                    for (unsigned i = n; i-- > 0;)
                      if (!own.count(i) && !c.is_constrained(i)) { unsigned j = i; while (j-- > 0) if (!own.count(j) && !c.is_constrained(j)) { c.add_line(i); c.add_entry(i, j, 1.); break; } break; }
                  c.close();
                };
                auto verify = [&](const std::string &w) {
                  ex.check(holds(f->solution, ref[0]), "solution", w);
                  ex.check(holds(f->old_solution, ref[1]), "old-solution", w);
                  ex.check(holds(f->old_old_solution, ref[2]), "old-old-solution", w);
                  ex.check(same(read(f->get_affine_constraints(), n), ref_a), "affine", w);
                  ex.check(same(read(f->get_newton_method_constraints(), n), ref_n), "newton", w);
                  ex.check(same(read(f->get_hanging_node_constraints(), n), own), "hanging", w);
                  if (set_a && set_n) ex.check(f->is_initialized(), "initialized", w);
                };
                std::string w;
                for (auto o : seq)
                  {
                    w += std::string(names[o]) + " ";
                    ex.transition();
                    if (o <= W3) { fill(d, o + 1); f->solution = d; ref[0] = o + 1; }
                    else if (o == UPD) { f->update_solution_vectors(); ref[2] = ref[1]; ref[1] = ref[0]; }
                    else if (o == AFF1 || o == AFF2 || o == NEW1)
                      {
                        AffineConstraints<double> c;
                        make(o == AFF1 ? 1 : o == AFF2 ? 2 : 3, c);
                        if (o == NEW1) { f->set_newton_method_constraints(c); ref_n = merged(ref_n, read(c, n)); set_n = true; }
                        else { f->set_affine_constraints(c); ref_a = merged(ref_a, read(c, n)); set_a = true; }
                      }
                    else if (o == RESET) { f->reset_all_affine_constraints(); ref_a = ref_n = own; }
                    else
                      {
                        copies.push_back(std::make_unique<gCP::FEField<dim>>(*f));
                        auto &g = *copies.back();
                        ex.check(same(read(g.get_affine_constraints(), n), own) && same(read(g.get_newton_method_constraints(), n), own), "copy-constraints", "a copy does not start from the field's own constraints, after " + w);
                        ex.check(!g.is_initialized(), "copy-initialized", "");
                        g.setup_vectors();
                        ex.check(holds(g.solution, 0) && holds(g.old_solution, 0), "copy-vectors", "after " + w);
                        fill(d, 5); g.solution = d; g.update_solution_vectors();
                        AffineConstraints<double> c;
                        make(3, c);
                        g.set_affine_constraints(c);
                        fill(d, 4); g.solution = d;
                      }
                    verify("after " + w);
                    ex.state(std::to_string(mesh) + std::to_string(dim) + "/" + std::to_string(ref[0]) + std::to_string(ref[1]) + std::to_string(ref[2]) + "/" + std::to_string(ref_a.size()) + "/" + std::to_string(ref_n.size()) + std::to_string(set_a) + std::to_string(set_n) + std::to_string(copies.size()));
                  }
                AffineConstraints<double> c3;
                make(3, c3);
                const Dict ref_c = merged(own, read(c3, n));
                for (auto &g : copies)
                  {
                    ex.check(holds(g->solution, 4) && holds(g->old_solution, 5), "copy-independent", "vectors of a copy change with the source, after " + w);
                    ex.check(same(read(g->get_affine_constraints(), n), ref_c) && same(read(g->get_newton_method_constraints(), n), own), "copy-independent-constraints", "after " + w);
                  }
                (void)threw;
              }
            catch (std::exception &e) { ex.fail("exception", std::string(e.what()).substr(0, 600)); }
            ex.trace();
            ex.sample(key);
            ex.end();
          }
        while (next(seq, std::vector<int>(depth, NOPS)));
      }
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  run<2>(ex);
  run<3>(ex);
  return ex.finish();
}
