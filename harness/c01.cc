// C01: geometry of generated grids.
#include "gals.h"
using namespace vf;

template <int D>
void verify(const Spec& s, const Grid<D>& g, Grid<D>& gm, const std::string& how)
{
  std::string w = how + " " + s.str();
  VF_CHECK(g.dimension() == D, "dimension", w << " dimension()=" << g.dimension());
  VF_CHECK(g.getPadding() == s.pad, "padding", w << " getPadding()=" << g.getPadding());
  const V3i n = g.numCells();
  for (int a = 0; a < 3; ++a) {
    VF_CHECK(n[a] == s.n[a], "num_cells", w << " axis " << a << " numCells=" << n[a]);
    VF_CHECK(g.getMask()[a] == (s.active(a) ? 1 : 0), "mask", w << " axis " << a << " mask=" << g.getMask()[a]);
  }
  long cells = (long)s.n[0] * s.n[1] * s.n[2];
  VF_CHECK((long)g.totalCells() == cells, "total_cells", w << " totalCells=" << g.totalCells());
  VF_CHECK((long)g.size() == s.total(), "size", w << " size=" << g.size() << " expected " << s.total());
  if ((long)g.size() != s.total()) return;  // indexing would be meaningless
  const V3 dx = g.dX(), odx = g.oneOverDX();
  for (int a = 0; a < D; ++a) {
    VF_CHECK(near(dx[a], s.dx(a), 1e-13 * s.dx(a) + 1e-15 * (fabs(s.lo[a]) + fabs(s.hi[a]))), "cell_size",
             w << " axis " << a << " dX=" << Prec{dx[a]} << " expected " << Prec{s.dx(a)});
    VF_CHECK(near(odx[a] * dx[a], 1.0, 1e-13), "inverse_cell_size",
             w << " axis " << a << " oneOverDX*dX=" << Prec{odx[a] * dx[a]});
  }
  long cnt = 0;
  s.all([&](int i, int j, int k) {
    const V3 p = g(i, j, k);
    const V3 q = gm.x(i, j, k);
    int id[3] = {i, j, k};
    for (int a = 0; a < 3; ++a) {
      double want = s.coord(a, id[a]);
      ++cnt;
      VF_CHECK(near(p[a], want, s.active(a) ? s.ctol(a) : 0.0), "position",
               w << " cell (" << i << "," << j << "," << k << ") axis " << a << " got " << Prec{p[a]} << " expected "
                 << Prec{want});
      VF_CHECK(same_bits(q[a], p[a]), "accessor", w << " x() and operator() differ at (" << i << "," << j << "," << k << ")");
      if (s.active(a)) {
        bool in_idx = id[a] >= 0 && id[a] < s.n[a];
        bool in_box = p[a] > s.lo[a] && p[a] < s.hi[a];
        VF_CHECK(in_idx == in_box, "ghost_outside_box",
                 w << " cell (" << i << "," << j << "," << k << ") axis " << a << " at " << Prec{p[a]});
      }
    }
  });
  rep().count("coordinates_checked", cnt);
}

template <int D>
void group(const char* name, long q, long t)
{
  cases(name, q, t, [](Rng& r, long c) {
    Spec s = random_spec(r, D, 1, 5, 60000);
    if (c % 7 == 6) s.pad = 0;   // no ghosts at all
    if (c % 11 == 10) s.pad = r.irange(6, 12), s.n[0] = r.irange(1, 4);
    if (c % 5 == 4 && D < 3) s.lo[2] = s.hi[2] = r.uni(-1, 1);  // inactive axes may be degenerate
    std::unique_ptr<Grid<D>> g;
    // the three ways to construct
    if (D == 1 && c % 3 == 0)
      g.reset(new Grid<D>(s.n[0]));
    else if (D == 2 && c % 3 == 0)
      g.reset(new Grid<D>(s.n[0], s.n[1]));
    else if (D == 1 && c % 3 == 1)
      g.reset(new Grid<D>(s.n[0], 1));
    else
      g.reset(new Grid<D>(s.n[0], s.n[1], s.n[2]));
    VF_CHECK(g->getPadding() == 1, "default_padding", "default padding " << g->getPadding());
    if (s.pad != 1) g->setPadding(s.pad);
    g->generate(s.lo[0], s.hi[0], s.lo[1], s.hi[1], s.lo[2], s.hi[2]);
    verify<D>(s, *g, *g, "fresh");
    rep().eval(s.hash(), s.total() > 1);
    rep().count("grids_fresh");
    if (c < 2) rep().sample("fresh grid " + s.str());
    // regenerate the same object: other box, other padding (smaller and larger)
    int regen = r.irange(1, 3);
    for (int k = 0; k < regen; ++k) {
      Spec s2 = s;
      if (k == 0 && r.coin(0.4)) {  // the box moved by very little, or one corner only
        double f = pow(10., r.uni(-12, -2));
        for (int a = 0; a < 3; ++a) {
          if (r.coin()) s2.lo[a] -= f * (s.hi[a] - s.lo[a]);
          if (r.coin()) s2.hi[a] += f * (s.hi[a] - s.lo[a]);
        }
        s2.dyadic = false;
      } else if (r.coin(0.4)) {  // one bound only
        int a = r.irange(0, D - 1);
        if (r.coin()) s2.lo[a] -= r.uni(0.1, 2) * (s.hi[a] - s.lo[a]);
        else s2.hi[a] += r.uni(0.1, 2) * (s.hi[a] - s.lo[a]);
        s2.dyadic = false;
        rep().count("grids_regenerated_one_bound_moved");
      } else
        random_box(r, s2);
      if (r.coin()) s2.pad = r.irange(0, 4);
      if (s2.total() > 60000) s2.pad = 1;
      g->setPadding(s2.pad);
      g->generate(s2.lo[0], s2.hi[0], s2.lo[1], s2.hi[1], s2.lo[2], s2.hi[2]);
      verify<D>(s2, *g, *g, "regenerated");
      rep().eval(s2.hash() ^ 77, true);
      rep().count("grids_regenerated");
    }
    // two grids alive at once do not disturb each other
    Spec s3 = random_spec(r, D, 1, 3, 3000);
    auto g3 = make_grid<D>(s3);
    verify<D>(s3, *g3, *g3, "second");
    Grid<D> copy(*g3);
    g3->generate(0, 1, 0, 1, 0, 1);
    verify<D>(s3, copy, copy, "copied");
    rep().count("grids_copied");
  });
}

int main(int argc, char** argv)
{
  init(argc, argv);
  group<1>("1d", 150, 1500);
  group<2>("2d", 150, 1500);
  group<3>("3d", 100, 1000);
  // large counts
  cases("large", 4, 8, [](Rng& r, long c) {
    Spec s;
    if (c % 4 == 0) {
      s.dim = 1, s.n[0] = 70000 + r.irange(0, 1000), s.pad = 2;
      auto g = make_grid<1>(s);
      verify<1>(s, *g, *g, "large");
    } else if (c % 4 == 1) {
      s.dim = 2, s.n[0] = 300 + r.irange(0, 20), s.n[1] = 257 + r.irange(0, 20), s.pad = 3;
      random_box(r, s);
      auto g = make_grid<2>(s);
      verify<2>(s, *g, *g, "large");
    } else if (c % 4 == 2) {
      s.dim = 3, s.n[0] = 41, s.n[1] = 37, s.n[2] = 45, s.pad = 2;
      random_box(r, s);
      auto g = make_grid<3>(s);
      verify<3>(s, *g, *g, "large");
    } else {
      s.dim = 2, s.n[0] = 2, s.n[1] = 33000, s.pad = 1;
      auto g = make_grid<2>(s);
      verify<2>(s, *g, *g, "large");
    }
    rep().eval(s.hash());
  });
  return rep().finish();
}
