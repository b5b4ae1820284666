// C02: cell indices address distinct storage locations, and every accessor agrees.
#include "gals.h"
using namespace vf;

template <int D>
void one(Rng& r, const Spec& s)
{
  auto gp = make_grid<D>(s);
  Grid<D>& g = *gp;
  const Grid<D>& cg = g;
  std::string w = s.str();
  VF_CHECK((long)g.size() == s.total(), "size", w << " size " << g.size());
  if ((long)g.size() != s.total()) return;
  std::vector<char> seen(s.total(), 0);
  const int junk[] = {0, 1, -1, 7, -1000, 123456, INT_MAX, INT_MIN};
  s.all([&](int i, int j, int k) {
    const std::size_t id = g.index(i, j, k);
    VF_CHECK(id < (std::size_t)s.total(), "range", w << " index(" << i << "," << j << "," << k << ")=" << id);
    if (id >= (std::size_t)s.total()) return;
    VF_CHECK(!seen[id], "injective", w << " index(" << i << "," << j << "," << k << ")=" << id << " used twice");
    seen[id] = 1;
    // x varies fastest, then y, then z
    long nx = s.n[0] + 2 * s.padded(0), ny = s.n[1] + 2 * s.padded(1);
    long want = (long)(i + s.padded(0)) + nx * ((j + s.padded(1)) + ny * (long)(k + s.padded(2)));
    VF_CHECK((long)id == want, "order", w << " index(" << i << "," << j << "," << k << ")=" << id << " expected " << want);
    VF_CHECK(g.index(V3i(i, j, k)) == id, "vec_index", w << " index(Vec3) differs at (" << i << "," << j << "," << k << ")");
    const V3* p = &cg(i, j, k);
    VF_CHECK(&g.x(i, j, k) == p && &cg(V3i(i, j, k)) == p, "accessors",
             w << " accessors name different cells at (" << i << "," << j << "," << k << ")");
    // indices along inactive axes have no effect
    if (D < 3) {
      int kk = junk[r.irange(0, 7)];
      int jj = D == 1 ? junk[r.irange(0, 7)] : j;
      VF_CHECK(g.index(i, jj, kk) == id && g.index(V3i(i, jj, kk)) == id, "inactive_index",
               w << " index(" << i << "," << jj << "," << kk << ") != index(" << i << "," << j << "," << k << ")");
      VF_CHECK(&cg(i, jj, kk) == p && &cg(V3i(i, jj, kk)) == p && &g.x(i, jj, kk) == p, "inactive_access",
               w << " (" << i << "," << jj << "," << kk << ")");
      rep().count("inactive_index_probes");
    }
    rep().count("cells");
  });
  for (long q = 0; q < s.total(); ++q) VF_CHECK(seen[q], "surjective", w << " location " << q << " is never addressed");
  // elements of an array
  {
    Array<D, double> f(g);
    const Array<D, double>& cf = f;
    VF_CHECK(f.size() == (std::size_t)s.total(), "array_size", w << " array size " << f.size());
    if (f.size() == (std::size_t)s.total())
      s.all([&](int i, int j, int k) {
        const std::size_t id = (std::size_t)((i + s.padded(0)) + (long)(s.n[0] + 2 * s.padded(0)) * ((j + s.padded(1)) + (long)(s.n[1] + 2 * s.padded(1)) * (k + s.padded(2))));
        const double* p = &f.data()[id];
        VF_CHECK(&f(i, j, k) == p && &cf(i, j, k) == p && &f(V3i(i, j, k)) == p && &cf(V3i(i, j, k)) == p && &f[id] == p && &cf[id] == p, "array_accessors",
                 w << " accessors name different elements at (" << i << "," << j << "," << k << ")");
        if (D < 3) {
          int kk = junk[r.irange(0, 7)], jj = D == 1 ? junk[r.irange(0, 7)] : j;
          VF_CHECK(&f(i, jj, kk) == p && &cf(i, jj, kk) == p && &f(V3i(i, jj, kk)) == p && &cf(V3i(i, jj, kk)) == p, "array_inactive", w << " (" << i << "," << jj << "," << kk << ")");
        }
        rep().count("array_elements");
      });
  }
  // a write through one accessor is seen by the others, at that cell only
  for (int t = 0; t < 4; ++t) {
    int id[3];
    for (int a = 0; a < 3; ++a) id[a] = r.irange(-s.padded(a), s.n[a] + s.padded(a) - 1);
    Grid<D> before(g);
    V3 v(r.uni(-9, 9), r.uni(-9, 9), r.uni(-9, 9));
    g.x(id[0], id[1], id[2]) = v;
    s.all([&](int i, int j, int k) {
      bool me = i == id[0] && j == id[1] && k == id[2];
      VF_CHECK(bits_equal(cg(i, j, k), me ? v : before(i, j, k)), "write_local",
               w << " write at (" << id[0] << "," << id[1] << "," << id[2] << ") seen at (" << i << "," << j << "," << k << ")");
    });
  }
  // the ids returned for positions can be used as indices whatever they hold on inactive axes
  for (int t = 0; t < 10; ++t) {
    Point p = random_point(r, s);
    V3 x(p.x[0], p.x[1], p.x[2]);
    Grid<D> fresh = *make_grid<D>(s);
    V3i b = fresh.baseNodeId(x);
    V3i bb = b;
    for (int a = D; a < 3; ++a) bb[a] = 0;
    VF_CHECK(fresh.index(b) == fresh.index(bb), "base_node_index", w << " " << p.str());
  }
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("1d", 80, 800, [](Rng& r, long c) {
    Spec s = random_spec(r, 1, c % 8 == 0 ? 0 : 1, 6, 4000);
    rep().eval(s.hash());
    if (!c) rep().sample(s.str());
    one<1>(r, s);
  });
  cases("2d", 80, 800, [](Rng& r, long c) {
    Spec s = random_spec(r, 2, c % 8 == 0 ? 0 : 1, 5, 6000);
    if (c % 7 == 3) s.pad = r.irange(6, 14);
    rep().eval(s.hash());
    if (!c) rep().sample(s.str());
    one<2>(r, s);
  });
  cases("3d", 80, 800, [](Rng& r, long c) {
    Spec s = random_spec(r, 3, c % 8 == 0 ? 0 : 1, 4, 9000);
    if (c % 9 == 3) s.pad = r.irange(6, 9), s.n[c % 3] = r.irange(1, 3);
    rep().eval(s.hash());
    if (!c) rep().sample(s.str());
    one<3>(r, s);
  });
  // more cells than 16 bits count
  cases("large", 12, 24, [](Rng& r, long c) {
    Spec s;
    s.pad = r.irange(1, 3);
    s.dim = 1 + (int)(c % 3);
    // long in one direction, or with planes of more than 16 bits
    if (s.dim == 1) s.n[0] = 66000 + r.irange(0, 4000);
    if (s.dim == 2 && c < 3) s.n[0] = r.irange(255, 290), s.n[1] = r.irange(258, 290);
    if (s.dim == 3 && c < 3) s.n[0] = r.irange(38, 44), s.n[1] = r.irange(38, 44), s.n[2] = r.irange(44, 48);
    if (s.dim == 2 && c >= 3) s.n[0] = r.irange(1, 4), s.n[1] = r.irange(1, 4), s.n[c % 2] = 33000 + r.irange(0, 999);
    if (s.dim == 3 && c == 5) s.n[0] = r.irange(258, 270), s.n[1] = r.irange(258, 270), s.n[2] = 1;
    if (s.dim == 3 && c > 5) s.n[0] = r.irange(1, 2), s.n[1] = r.irange(1, 2), s.n[2] = r.irange(1, 2), s.n[c % 4 % 3] = 5000 + r.irange(0, 999);
    random_box(r, s);
    rep().eval(s.hash());
    rep().count("cells_of_large_grids", s.total());
    if (s.dim == 1) one<1>(r, s);
    if (s.dim == 2) one<2>(r, s);
    if (s.dim == 3) one<3>(r, s);
  });
  return rep().finish();
}
