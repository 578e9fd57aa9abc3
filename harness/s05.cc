// S05: results do not depend on the number of processes nor on the partition of the cells.
// The harness starts itself under mpirun with 1, 2, 3 and 4 processes (--child); every child steps the same cases
// and writes the gathered fields, internal variables and reported quantities, which are compared case by case.
#include "solver_options.h"
#include <gCP/postprocessing.h>
#include <deal.II/distributed/shared_tria.h>
#include <deal.II/distributed/tria.h>
#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace vp;

struct Case
{
  std::string key;
  int dim;
  Cfg c;
  std::vector<StepSym> h;
  std::vector<int> owner; // process of every cell (modulo the number of processes); empty: p4est
  unsigned cells_x = 2, cells_y = 2;
};

std::vector<Case> cases(bool quick)
{
  std::vector<Case> r;
  const std::vector<StepSym> small = {{1, 1}, {-1.5, 0.5}};
  for (int dim : {2, 3})
    {
      auto single = [&](const Opt &o) { return o.group != "mesh" && o.group != "gb" && o.group != "dec"; };
      Cfg base;
      base.mats = {0, 0, 0, 0};
      base.ny = 2;
      base.tol = 1e-10;
      for_each_config(dim, quick ? (dim == 2 ? 2 : 1) : (dim == 2 ? 3 : 2), [&](const std::string &n, const Cfg &c, int d) {
        for (auto &h : histories(small, d ? 2 : 3))
          {
            if (d == 2 && h[0].inc < 0) continue;
            if (quick && d == 2 && h[1].inc > 0) continue;
            Case k;
            k.dim = dim;
            k.c = c;
            k.h = h;
            for (int refined = 0; refined < (d < 2 && dim == 2 ? 2 : 1); ++refined)
              {
                k.cells_x = refined ? 3 : 2;
                k.key = "dim=" + std::to_string(dim) + ";options=" + n + ";history=" + hist_str(h) + ";cells=" + std::to_string(k.cells_x) + "x2;partition=p4est";
                k.owner.clear();
                r.push_back(k);
              }
            if (d > 0 && (quick || d > 1)) continue;
            if (h.size() > 2 && hist_str(h) != hist_str(histories(small, 3)[2])) continue;
            // every assignment of the four cells to four processes (with N processes: modulo N)
            k.cells_x = 2;
            for (int code = 0; code < (dim == 2 && d == 0 ? 256 : 16); ++code)
              {
                k.owner.clear();
                for (int i = 0, x = code; i < 4; ++i)
                  if (dim == 2 && d == 0) { k.owner.push_back(x % 4); x /= 4; }
                  else { k.owner.push_back(x % 2); x /= 2; }
                k.key = "dim=" + std::to_string(dim) + ";options=" + n + ";history=" + hist_str(h) + ";cells=2x2;partition=";
                for (int o : k.owner) k.key += std::to_string(o);
                r.push_back(k);
              }
          }
      }, single, base);
    }
  return r;
}

template <int dim>
void mesh(dealii::Triangulation<dim> &t, const Case &k)
{
  std::vector<unsigned int> rep(dim, 1);
  rep[0] = k.cells_x;
  rep[1] = k.cells_y;
  dealii::Point<dim> p1, p2;
  for (int d = 0; d < dim; ++d) p2[d] = k.c.h[d] * rep[d];
  dealii::GridGenerator::subdivided_hyper_rectangle(t, rep, p1, p2, true);
  for (auto &cell : t.active_cell_iterators()) cell->set_material_id(0);
  if (k.c.periodic)
    {
      // the neighbours across the tied faces are ghost cells, as in the application
      std::vector<dealii::GridTools::PeriodicFacePair<typename dealii::Triangulation<dim>::cell_iterator>> v;
      dealii::GridTools::collect_periodic_faces(t, 2, 3, 1, v);
      t.add_periodicity(v);
      if (!k.owner.empty()) t.execute_coarsening_and_refinement();
    }
  if (k.c.skewed) Problem<dim>::GridTools_transform(t, k.c.skewed);
}

template <int dim>
std::vector<double> child(const Case &k, const std::string &dir)
{
  using namespace dealii;
  const unsigned np = Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD);
  std::unique_ptr<Triangulation<dim>> tria;
  if (k.owner.empty())
    {
      tria = std::make_unique<parallel::distributed::Triangulation<dim>>(MPI_COMM_WORLD);
      mesh(*tria, k);
    }
  else
    {
      using T = parallel::shared::Triangulation<dim>;
      auto t = std::make_unique<T>(MPI_COMM_WORLD, Triangulation<dim>::none, true, typename T::Settings(T::partition_custom_signal));
      T *raw = t.get();
      t->signals.post_refinement.connect([raw, &k, np]() {
        unsigned i = 0;
        for (auto &cell : raw->active_cell_iterators()) cell->set_subdomain_id(k.owner[i++] % np);
      });
      mesh(*t, k);
      tria = std::move(t);
    }
  Problem<dim> p(k.c, dir, tria.get());
  using M = std::map<std::string, std::vector<double>>;
  std::vector<double> out;
  std::ofstream table(dir + "/homogenization.txt");
  gCP::Postprocessing::Homogenization<dim> hom(p.field, p.mapping);
  gCP::Postprocessing::SimpleShear<dim> shear(p.field, p.mapping, 0.1, 0.0, 1., 1., gCP::RunTimeParameters::LoadingType::Monotonic, 3, 1.);
  hom.init(p.solver->get_elastic_strain_law(), p.solver->get_hooke_law(), table);
  shear.init(p.solver->get_elastic_strain_law(), p.solver->get_hooke_law());
  if (k.c.macro) hom.set_macroscopic_strain(p.macro);
  for (auto &x : k.h)
    {
      const int ok = p.step(x.inc * k.c.amp, x.dt);
      if (!ok && !p.not_converged()) throw std::runtime_error(p.error);
      out.push_back(ok);
      if (!ok) break;
      M mine;
      std::vector<types::global_dof_index> idx;
      for (auto &cell : p.field->get_dof_handler().active_cell_iterators())
        {
          if (!cell->is_locally_owned()) continue;
          // by position: cell ids of differently partitioned coarse meshes agree, but this needs no knowledge of that
          std::string id;
          for (int d = 0; d < dim; ++d) id += std::to_string((long)(1000 * cell->center()[d])) + "/";
          auto &v = mine[id];
          idx.resize(cell->get_fe().n_dofs_per_cell());
          cell->get_dof_indices(idx);
          for (auto i : idx) v.push_back(p.field->solution(i));
          for (auto &q : p.solver->quadrature_point_history.get_data(cell))
            for (double g : q->get_slip_resistances()) v.push_back(g);
        }
      auto all = Utilities::MPI::gather(MPI_COMM_WORLD, mine, 0);
      M u;
      for (auto &m : all) for (auto &e : m) u.insert(e);
      out.push_back(u.size());
      for (auto &e : u) out.insert(out.end(), e.second.begin(), e.second.end());
      out.push_back(p.field->get_l2_norm(p.field->solution));
      const auto n = p.field->get_sub_l2_norms(p.field->solution);
      for (unsigned b = 0; b < n.size(); ++b) out.push_back(n[b]);
      hom.compute_macroscopic_quantities(p.time->get_next_time());
      shear.compute_data(p.time->get_next_time());
      for (int i = 0; i < dim; ++i) for (int j = i; j < dim; ++j) out.push_back(hom.get_macroscopic_stress()[i][j]);
      p.field->update_solution_vectors();
      p.time->advance_time();
    }
  // the tables as written by the first process
  std::ostringstream o;
  shear.output_data_to_file(o);
  hom.output_macroscopic_quantities_to_file();
  table.flush();
  if (Utilities::MPI::this_mpi_process(MPI_COMM_WORLD) == 0)
    {
      std::ifstream in(dir + "/homogenization.txt");
      std::stringstream ss;
      ss << o.str() << in.rdbuf();
      std::string w;
      while (ss >> w)
        {
          char *e;
          const double d = strtod(w.c_str(), &e);
          if (*e == 0) out.push_back(d);
        }
    }
  return out;
}

std::string arg(int argc, char **argv, const std::string &n, const std::string &def)
{
  for (int i = 1; i + 1 < argc; ++i)
    if (n == argv[i]) return argv[i + 1];
  return def;
}

int main(int argc, char **argv)
{
  const std::string only = arg(argc, argv, "--only", ""), shard = arg(argc, argv, "--shard", "0/1");
  const bool quick = arg(argc, argv, "--tier", "quick") != "thorough";
  int sh = 0, nsh = 1;
  sscanf(shard.c_str(), "%d/%d", &sh, &nsh);
  auto mine = [&](size_t i, const std::string &key) { return only.empty() ? (int)(i % nsh) == sh : key == only.substr(only.find(';') + 1); };
  const auto all = cases(quick);
  const std::string child_out = arg(argc, argv, "--child", "");
  if (!child_out.empty())
    {
      Init init(argc, argv);
      if (!getenv("VP_LOUD")) std::cout.setstate(std::ios::failbit);
      const unsigned rank = dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD);
      const std::string dir = arg(argc, argv, "--workdir", ".") + "/rank" + std::to_string(rank);
      mkdir(dir.c_str(), 0755);
      std::ofstream o;
      if (rank == 0) o.open(child_out);
      for (size_t i = 0; i < all.size(); ++i)
        {
          if (!mine(i, all[i].key)) continue;
          if (rank == 0) o << all[i].key << "\n" << std::flush;
          std::vector<double> r;
          try { r = all[i].dim == 2 ? child<2>(all[i], dir) : child<3>(all[i], dir); }
          catch (std::exception &e)
            {
              fprintf(stderr, "process %u: %s\n", rank, std::string(e.what()).substr(0, 500).c_str());
              MPI_Abort(MPI_COMM_WORLD, 3);
            }
          if (rank == 0)
            {
              o << r.size();
              for (double v : r) o << " " << num(v);
              o << "\n" << std::flush;
            }
        }
      return 0;
    }
  // parent
  std::vector<char *> av;
  for (int i = 0; i < argc; ++i)
    if (std::string(argv[i]) == "--shard" ) ++i;
    else av.push_back(argv[i]);
  Explorer ex(av.size(), av.data());
  using R = std::map<std::string, std::vector<double>>;
  auto launch = [&](int np, std::string &log) {
    const std::string d = ex.workdir + "/np" + std::to_string(np);
    mkdir(d.c_str(), 0755);
    const std::string cmd = "cd " + d + " && timeout -k 5 " + (quick ? "240" : "3000") + " mpirun -np " + std::to_string(np) + " --oversubscribe " + argv[0] + " --child " + d + "/out --workdir " + d +
                            " --tier " + (quick ? "quick" : "thorough") + " --shard " + shard + (only.empty() ? "" : " --only '" + only + "'") + " > " + d + "/log 2>&1";
    const int rc = system(cmd.c_str());
    std::ifstream l(d + "/log");
    std::stringstream ls;
    ls << l.rdbuf();
    log = "rc " + std::to_string(WEXITSTATUS(rc)) + " " + ls.str().substr(0, 500);
    R r;
    std::ifstream in(d + "/out");
    std::string k, v;
    while (std::getline(in, k))
      {
        r[k];
        if (!std::getline(in, v)) { r[k] = {NAN}; break; }
        std::istringstream ss(v);
        size_t n;
        ss >> n;
        std::string w;
        auto &x = r[k];
        while (ss >> w) x.push_back(strtod(w.c_str(), nullptr));
        if (x.size() != n) x = {NAN};
      }
    return r;
  };
  std::string log1;
  const R ref = launch(1, log1);
  if (ref.empty()) { fprintf(stderr, "no result with one process: %s\n", log1.c_str()); return 3; }
  for (int np = 2; np <= 4; ++np)
    {
      if (!only.empty() && only.find("np=" + std::to_string(np) + ";") != 0) continue;
      std::string log;
      const R got = launch(np, log);
      for (size_t i = 0; i < all.size(); ++i)
        {
          if (!mine(i, all[i].key)) continue;
          const std::string key = "np=" + std::to_string(np) + ";" + all[i].key;
          auto a = ref.find(all[i].key), b = got.find(all[i].key);
          if (a == ref.end() || b == got.end()) { ex.note("not_run_after_a_failure", 1); continue; }
          if (!ex.begin(key)) continue;
          if (a->second.size() == 1 && std::isnan(a->second[0])) ex.fail("failed-serial", log1);
          else if (b->second.size() == 1 && std::isnan(b->second[0])) ex.fail("failed-parallel", "the run ended during this case: " + log);
          else if (ex.check(a->second.size() == b->second.size(), "values", std::to_string(b->second.size()) + " values with " + std::to_string(np) + " processes, " + std::to_string(a->second.size()) + " with one"))
            for (size_t j = 0; j < a->second.size(); ++j)
              {
                ex.note_max("largest_difference", std::abs(a->second[j] - b->second[j]) / std::max(1.0, std::abs(a->second[j])));
                if (!ex.close(b->second[j], a->second[j], std::max(1.0, std::abs(a->second[j])), 1e-7, "values", "value " + std::to_string(j) + " of " + std::to_string(a->second.size()))) break;
              }
          ex.state(key);
          ex.trace();
          for (size_t j = 0; j < all[i].h.size(); ++j) ex.transition();
          ex.sample(key);
          ex.end();
        }
    }
  return ex.finish();
}
