// C03: the base node of a position is the lower corner of the node cell that encloses it.
#include "gals.h"
using namespace vf;

template <int D>
void one(Rng& r, const Spec& s, long c)
{
  auto g = make_grid<D>(s);
  std::string w = s.str();
  for (int t = 0; t < 400; ++t) {
    V3 x;
    int expect[3] = {0, 0, 0};
    bool exact[3] = {false, false, false};
    bool hit = false;
    for (int a = 0; a < D; ++a) {
      // anywhere: inside, in the ghost layers, and well outside on either side
      int far = t % 8 == 7 ? 1000000 : t % 4 == 3 ? 1000 : 0;
      int span = far ? 2 * far : s.n[a] + 2 * s.pad + 3;
      int b = r.irange(-s.pad - 2 - far, -s.pad - 2 + span);
      double e = r.unit();
      if (t % 5 == 0) e = 0;
      if (t % 5 == 1) e = 0.5;
      if (t % 5 == 2) {  // close to a node, on either side, at every scale
        double near_node = pow(10., r.uni(-13, -3));
        e = r.coin() ? near_node : 1 - near_node;
      }
      expect[a] = b;
      if (s.dyadic && (t % 5 == 0 || t % 5 == 1)) {
        x[a] = s.lo[a] + (b + 0.5 + e) * s.dx(a);  // no rounding: spacing and origin are dyadic
        exact[a] = true;
      } else
        x[a] = (double)((long double)s.lo[a] + ((long double)b + 0.5L + e) * s.dx(a));
      if (e == 0) hit = true;
    }
    // junk on inactive axes is ignored
    for (int a = D; a < 3; ++a) x[a] = r.coin() ? 0 : r.uni(-1e6, 1e6);
    const V3i b = g->baseNodeId(x);
    for (int a = 0; a < D; ++a) {
      rep().count(exact[a] ? "exact_positions" : "rounded_positions");
      if (exact[a]) {
        VF_CHECK(b[a] == expect[a], "exact", w << " axis " << a << " x=" << Prec{x[a]} << " node " << b[a] << " expected " << expect[a]);
        continue;
      }
      // lower node <= x < next node, within the rounding of the coordinates
      double slack = 1e-14 * (2 + std::abs(b[a])) * s.dx(a) + 1e-14 * (fabs(x[a]) + fabs(s.lo[a]) + fabs(s.hi[a]));
      double lo = s.coord(a, b[a]), hi = s.coord(a, b[a] + 1);
      VF_CHECK(x[a] >= lo - slack && x[a] <= hi + slack && std::abs(b[a] - expect[a]) <= 1, "encloses",
               w << " axis " << a << " x=" << Prec{x[a]} << " node " << b[a] << " covers [" << Prec{lo} << "," << Prec{hi} << ")");
    }
    rep().eval(mix(s.hash()) ^ hash_double(x[0]) ^ (hash_double(x[1]) << 1) ^ (hash_double(x[2]) << 2), true);
    if (hit) rep().count("positions_on_nodes");
    if (t == 0 && c == 0) rep().sample(w + VF_STR(" x=" << x << " -> " << b));
  }
  // the stored position of every cell belongs to that cell (ghosts included)
  if (s.dyadic)
    s.all([&](int i, int j, int k) {
      const V3i b = g->baseNodeId((*g)(i, j, k));
      int id[3] = {i, j, k};
      for (int a = 0; a < D; ++a)
        VF_CHECK(b[a] == id[a], "own_node", w << " cell (" << i << "," << j << "," << k << ") axis " << a << " -> " << b[a]);
      rep().count("own_node_checks");
    });
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("1d", 60, 600, [](Rng& r, long c) { one<1>(r, random_spec(r, 1, 0, 5, 3000), c); });
  cases("2d", 60, 600, [](Rng& r, long c) { one<2>(r, random_spec(r, 2, 0, 4, 3000), c); });
  cases("3d", 60, 600, [](Rng& r, long c) { one<3>(r, random_spec(r, 3, 0, 4, 5000), c); });
  cases("long", 6, 30, [](Rng& r, long c) {
    Spec s;
    s.dim = 1 + (int)(c % 3);
    s.pad = r.irange(0, 3);
    for (int a = 0; a < s.dim; ++a) s.n[a] = r.irange(1, 3);
    s.n[r.irange(0, s.dim - 1)] = s.dim == 1 ? 70000 : s.dim == 2 ? 34000 : 3000;
    random_box(r, s);
    s.dim == 1 ? one<1>(r, s, 1) : s.dim == 2 ? one<2>(r, s, 1) : one<3>(r, s, 1);
  });
  return rep().finish();
}
