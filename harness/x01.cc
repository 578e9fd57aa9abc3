// X01: crystal files: reading, validation, rotation.
#include "gcp_util.h"
using namespace vp;

static void put(const std::string &f, const std::string &t) { std::ofstream(f) << t; }
static std::string text(const std::vector<Row> &rows, int style)
{
  std::string s;
  for (size_t r = 0; r < rows.size(); ++r)
    {
      for (size_t i = 0; i < rows[r].size(); ++i)
        {
          char b[64];
          snprintf(b, 64, style == 1 ? "%25.17e" : "%.17g", rows[r][i]);
          s += (i ? (style == 2 ? " , " : style == 1 ? ", " : ",") : (style == 2 ? "  " : ""));
          s += b;
        }
      if (!(style == 3 && r + 1 == rows.size())) s += "\n";
    }
  if (style == 2) s += "   \n\n";
  return s;
}
template <int dim>
std::shared_ptr<gCP::CrystalsData<dim>> load(const std::string &dir, unsigned nc, std::string *err)
{
  dealii::Triangulation<dim> t;
  std::vector<unsigned> m;
  for (unsigned i = 0; i < nc; ++i) { m.push_back(i); if (i % 2 == 0) m.push_back(i); }
  row_mesh<dim>(t, m);
  auto c = std::make_shared<gCP::CrystalsData<dim>>();
  try { c->init(t, dir + "/a", dir + "/d", dir + "/n"); }
  catch (std::exception &e) { if (err) *err = e.what(); return nullptr; }
  return c;
}

template <int dim>
void run(Explorer &ex)
{
  using namespace dealii;
  std::vector<double> av = {0., 30., 90., -45., 180., 237.25};
  std::vector<Row> angles;
  if (dim == 2) for (double a : av) angles.push_back({a});
  else for (double a : av) for (double b : av) for (double c : av) angles.push_back({a, b, c});
  struct Sys { std::string name; std::vector<Row> d, n; };
  std::vector<Sys> systems;
  if (dim == 2)
    systems = {{"one", {{1, 0}}, {{0, 1}}}, {"two", {{1, 1}, {-3, 2}}, {{-2, 2}, {2, 3}}}, {"three", {{0, -5}, {0.5, 0.866}, {1, 0}}, {{1, 0}, {-0.866, 0.5}, {0, -1}}}};
  else
    {
      systems = {{"one", {{1, 0, 0}}, {{0, 0, 2}}}, {"two", {{0, 1, -1}, {1, 2, -3}}, {{1, 1, 1}, {1, 1, 1}}}};
      Sys fcc{"fcc", {}, {}};
      const int N[4][3] = {{1, 1, 1}, {-1, 1, 1}, {1, -1, 1}, {1, 1, -1}}, D[6][3] = {{0, 1, -1}, {1, 0, -1}, {1, -1, 0}, {0, 1, 1}, {1, 0, 1}, {1, 1, 0}};
      for (auto &n : N) for (auto &d : D) if (n[0] * d[0] + n[1] * d[1] + n[2] * d[2] == 0) { fcc.n.push_back({(double)n[0], (double)n[1], (double)n[2]}); fcc.d.push_back({(double)d[0], (double)d[1], (double)d[2]}); }
      systems.push_back(fcc);
      // vectors that are orthogonal only up to round-off
      Sys rot{"rotated", {}, {}};
      double R[3][3];
      rotation({12.3, 45.6, 78.9}, R);
      for (size_t k = 0; k < fcc.d.size(); ++k)
        {
          Row d(3), n(3);
          for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { d[i] += R[i][j] * fcc.d[k][j]; n[i] += R[i][j] * fcc.n[k][j]; }
          rot.d.push_back(d);
          rot.n.push_back(n);
        }
      systems.push_back(rot);
    }
  const std::string &w = ex.workdir;
  for (auto &sy : systems)
    for (double sd : {1.0, 1e-6, 2e5})
      for (double sn : {1.0, 3e4})
        for (int style = 0; style < 4; ++style)
          for (unsigned nc = 1; nc <= 3; ++nc)
            for (size_t a = 0; a < angles.size(); a += (dim == 3 && ex.quick ? 7 : 1))
              {
                std::vector<Row> an;
                for (unsigned c = 0; c < nc; ++c) an.push_back(angles[(a + 5 * c) % angles.size()]);
                std::string key = "dim=" + std::to_string(dim) + ";systems=" + sy.name + ";scale=" + shortnum(sd) + "," + shortnum(sn) + ";style=" + std::to_string(style) + ";angles=";
                for (auto &r : an) key += rowstr(r) + "|";
                if (!ex.begin(key)) continue;
                auto d = sy.d, n = sy.n;
                for (auto &r : d) for (auto &x : r) x *= sd;
                for (auto &r : n) for (auto &x : r) x *= sn;
                put(w + "/a.txt", text(an, style));
                put(w + "/d.txt", text(d, style));
                put(w + "/n.txt", text(n, style));
                std::string err;
                auto c = load<dim>(w, nc, &err);
                ex.transition();
                if (!ex.check(c != nullptr, "rejected", "well-formed files are rejected: " + err.substr(0, 400))) continue;
                ex.check(c->is_initialized(), "flag", "not flagged as initialised");
                if (!ex.check(c->get_n_crystals() == nc && c->get_n_slips() == d.size(), "counts", "wrong number of crystals or slip systems")) continue;
                for (unsigned i = 0; i < nc; ++i)
                  {
                    double R[3][3];
                    rotation(an[i], R);
                    for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q)
                      {
                        if (p < dim && q < dim) ex.close(c->get_rotation_tensor(i)[p][q], R[p][q], 1, 1e-14, "rotation", "rotation tensor of crystal " + std::to_string(i));
                        ex.close(c->get_3d_rotation_tensor(i)[p][q], R[p][q], 1, 1e-14, "rotation3d", "3-D rotation tensor of crystal " + std::to_string(i));
                      }
                    ex.check(c->get_slip_directions(i).size() == d.size() && c->get_slip_normals(i).size() == d.size() && c->get_symmetrized_schmid_tensors(i).size() == d.size(), "counts", "lists of wrong length");
                    for (unsigned k = 0; k < d.size(); ++k)
                      {
                        const std::string ck = " of crystal " + std::to_string(i) + " system " + std::to_string(k);
                        Tensor<1, 3> s, m, rs, rm;
                        double ld = 0, ln = 0;
                        for (int p = 0; p < dim; ++p) { ld += d[k][p] * d[k][p]; ln += n[k][p] * n[k][p]; }
                        for (int p = 0; p < dim; ++p) { rs[p] = d[k][p] / std::sqrt(ld); rm[p] = n[k][p] / std::sqrt(ln); }
                        for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) { s[p] += R[p][q] * rs[q]; m[p] += R[p][q] * rm[q]; }
                        Tensor<1, 3> t;
                        if (dim == 3) t = cross_product_3d(m, s);
                        const auto &S = c->get_slip_direction(i, k), &Mm = c->get_slip_normal(i, k), &T = c->get_slip_orthogonal(i, k);
                        const auto &Z = c->get_schmid_tensor(i, k);
                        const auto &ZS = c->get_symmetrized_schmid_tensor(i, k);
                        double tr = 0;
                        for (int p = 0; p < dim; ++p)
                          {
                            ex.close(S[p], s[p], 1, 1e-13, "direction", "slip direction" + ck);
                            ex.close(c->get_slip_directions(i)[k][p], s[p], 1, 1e-13, "direction", "slip direction (list)" + ck);
                            ex.close(Mm[p], m[p], 1, 1e-13, "normal", "slip normal" + ck);
                            ex.close(c->get_slip_normals(i)[k][p], m[p], 1, 1e-13, "normal", "slip normal (list)" + ck);
                            ex.close(T[p], t[p], 1, 1e-13, "orthogonal", "slip orthogonal" + ck);
                            tr += Z[p][p];
                            double bs = 0, bm = 0;
                            for (int q = 0; q < dim; ++q)
                              {
                                ex.close(Z[p][q], s[p] * m[q], 1, 1e-13, "schmid", "Schmid tensor" + ck);
                                ex.close(ZS[p][q], 0.5 * (s[p] * m[q] + s[q] * m[p]), 1, 1e-13, "schmid-symmetric", "symmetrised Schmid tensor" + ck);
                                ex.close(c->get_symmetrized_schmid_tensors(i)[k][p][q], ZS[p][q], 1, 1e-15, "schmid-symmetric", "symmetrised Schmid tensor (list)" + ck);
                                bs += c->get_rotation_tensor(i)[q][p] * S[q];
                                bm += c->get_rotation_tensor(i)[q][p] * Mm[q];
                              }
                            ex.close(bs, rs[p], 1, 1e-13, "rotate-back", "direction rotated back" + ck);
                            ex.close(bm, rm[p], 1, 1e-13, "rotate-back", "normal rotated back" + ck);
                          }
                        ex.check(std::abs(tr) < 1e-13, "trace", "Schmid tensor not trace-free" + ck);
                        ex.check(std::abs(S.norm() - 1) < 1e-13 && std::abs(Mm.norm() - 1) < 1e-13 && std::abs(S * Mm) < 1e-13 && (dim == 2 || (std::abs(T.norm() - 1) < 1e-13 && std::abs(T * S) < 1e-13 && std::abs(T * Mm) < 1e-13)), "triad", "triad not orthonormal" + ck);
                      }
                  }
                ex.state(key);
                ex.trace();
                ex.sample(key);
                ex.end();
              }
  // malformed variants: one defect in one file
  const auto &base = systems[1];
  std::vector<Row> an;
  for (int c = 0; c < 2; ++c) an.push_back(angles[c + 1]);
  const char *files[] = {"a", "d", "n"};
  const char *muts[] = {"none", "missing-file", "extra-column", "missing-column", "extra-row", "missing-row", "empty", "not-a-number", "skewed", "slightly-skewed", "skewed-small", "zero-vector", "other-separator"};
  for (int f = 0; f < 3; ++f)
    for (int mu = 0; mu < 13; ++mu)
      for (unsigned row = 0; row < 2; ++row)
        {
          const std::string mn = muts[mu];
          if (f == 0 && (mn.find("skew") != std::string::npos || mn == "zero-vector")) continue;
          const std::string key = "malformed;dim=" + std::to_string(dim) + ";file=" + files[f] + ";defect=" + mn + ";row=" + std::to_string(row);
          if (!ex.begin(key)) continue;
          std::vector<std::vector<Row>> data = {an, base.d, base.n};
          auto &x = data[f];
          if (mn == "extra-column") x[row].push_back(1.0);
          if (mn == "missing-column") x[row].pop_back();
          if (mn == "extra-row") x.insert(x.begin() + row, x[row]);
          if (mn == "missing-row") x.erase(x.begin() + row);
          if (mn == "empty") x.clear();
          const auto &o = f == 1 ? base.n : base.d;
          auto skew = [&](double e) { for (int i = 0; i < dim; ++i) x[row][i] += e * o[row][i]; };
          if (mn == "skewed") skew(0.5);
          if (mn == "slightly-skewed") skew(1e-6);
          if (mn == "skewed-small") { skew(0.5); for (auto &y : data) if (&y != &data[0]) for (auto &r : y) for (auto &v : r) v *= 1e-9; }
          if (mn == "zero-vector") for (auto &v : x[row]) v = 0;
          for (int k = 0; k < 3; ++k)
            {
              const std::string fn = w + "/" + files[k] + ".txt";
              std::remove(fn.c_str());
              if (k == f && mn == "missing-file") continue;
              std::string t = text(data[k], 0);
              if (k == f && mn == "not-a-number") t = "x,y,z\n" + t;
              if (k == f && mn == "other-separator") std::replace(t.begin(), t.end(), ',', ';');
              put(fn, t);
            }
          std::string err;
          // a file with a single column has no separator to get wrong
          const bool ok = mn == "none" || (mn == "other-separator" && dim == 2 && f == 0) ;
          // with one row fewer (or more) both slip files must differ in length; angles must match the mesh
          auto c = load<dim>(w, 2, &err);
          ex.transition();
          ex.check((c != nullptr) == ok, "malformed", ok ? "a well-formed set is rejected: " + err.substr(0, 300) : "a malformed set of files is accepted");
          ex.state(key);
          ex.trace();
          ex.end();
        }
  // number of crystals against the mesh
  for (unsigned mesh = 1; mesh <= 3; ++mesh)
    for (unsigned rows = 1; rows <= 3; ++rows)
      {
        const std::string key = "counts;dim=" + std::to_string(dim) + ";mesh=" + std::to_string(mesh) + ";rows=" + std::to_string(rows);
        if (!ex.begin(key)) continue;
        std::vector<Row> r(angles.begin(), angles.begin() + rows);
        put(w + "/a.txt", text(r, 0));
        put(w + "/d.txt", text(base.d, 0));
        put(w + "/n.txt", text(base.n, 0));
        auto c = load<dim>(w, mesh, nullptr);
        ex.transition();
        ex.check((c != nullptr) == (mesh == rows), "count-mismatch", "number of orientations and crystals");
        ex.state(key);
        ex.end();
      }
}

int main(int argc, char **argv)
{
  Explorer ex(argc, argv);
  Init init(argc, argv);
  run<2>(ex);
  run<3>(ex);
  return ex.finish();
}
