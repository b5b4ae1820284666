// C10: interpolating a whole field writes, for every interior cell of the query array, the pointwise interpolant, and
// nothing else.
#include "gals.h"
using namespace vf;

template <int D>
struct Snapshot {
  Levelset<D> ls;
  explicit Snapshot(const Levelset<D>& l) : ls(l) {}
};

template <int D>
void one(Rng& r, long c)
{
  Spec s = random_spec(r, D, 1, 4, D == 3 ? 3000 : 2000);
  auto g = make_grid<D>(s);
  Levelset<D> ls(*g);
  // the query array lives on its own grid: same shape, coarser, or another box entirely
  Spec q = s;
  if (c % 3 == 1) {
    for (int a = 0; a < D; ++a) q.n[a] = c % 15 == 1 ? 1 : r.irange(1, s.n[a]);
    q.pad = r.irange(0, 3);
    random_box(r, q);
  }
  auto own = make_grid<D>(q);
  // or the level set's own grid, the queries lying around its nodes as departure points do
  bool around = c % 3 == 2;
  Grid<D>* gq = around ? g.get() : own.get();
  Array<D, V3> x(*gq);
  // several rounds on the same objects: nothing of an earlier round may show in a later one
  for (int round = 0, rounds = c % 4 == 1 ? 3 : 1; round < rounds; ++round) {
  random_prev<D>(r, s, ls, c % 4 ? 1 : pow(10., r.uni(-5, 5)));
  s.all([&](int i, int j, int k) {
    ls.phi()(i, j, k) = r.uni(-1, 1);
    ls.psi()(i, j, k) = V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
    auto& m = ls.phiMixedDerivatives()(i, j, k);
    for (int q = 0; q < (D == 1 ? 0 : D == 2 ? 1 : 4); ++q) m[q] = r.uni(-1, 1);
    ls.phiInterpPrev()(i, j, k) = r.uni(-1, 1);
    ls.psiInterpPrev()(i, j, k) = V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
    if (c % 6 == 4 && r.coin(0.3)) {  // what is replaced may hold anything
      ls.phiInterpPrev()(i, j, k) = NAN;
      for (int a = 0; a < D; ++a) ls.psiInterpPrev()(i, j, k)[a] = NAN;
    }
  });
  std::map<long, Point> pts;
  Point held = random_point(r, s);
  double hold = c % 7 == 3 ? 1 : c % 7 == 5 ? 0.6 : 0;  // runs of equal query positions
  q.all([&](int i, int j, int k) {
    Point p = r.coin(hold) ? held : random_point(r, s);
    held = p;
    if (around && hold == 0 && q.inside(i, j, k)) {
      int id[3] = {i, j, k};
      double size = r.coin(0.3) ? pow(10., r.uni(-14, -6)) : r.uni(0, 1);
      for (int a = 0; a < D; ++a) {
        double e = r.coin(0.1) ? 0 : size * r.uni(-0.99, 0.99);
        p.b[a] = id[a] - (e < 0), p.e[a] = e < 0 ? 1 + e : e;
        p.x[a] = s.coord(a, id[a]) + e * s.dx(a);
      }
      x(i, j, k) = V3(p.x[0], p.x[1], p.x[2]);
      pts[(long)gq->index(i, j, k)] = p;
      rep().count("queries_around_their_own_node");
      return;
    }
    for (int a = 0; a < D; ++a) {
      if (p.e[a] < 1e-6 || p.e[a] > 1 - 1e-6) p.e[a] = 0.5;
      p.x[a] = s.coord(a, p.b[a]) + p.e[a] * s.dx(a);
    }
    if (!q.inside(i, j, k))  // ghost cells of the query hold garbage nobody may look up
      for (int a = 0; a < 3; ++a) p.x[a] = 1e9;
    x(i, j, k) = V3(p.x[0], p.x[1], p.x[2]);
    pts[(long)gq->index(i, j, k)] = p;
  });
  Array<D, V3> x0(x);
  Levelset<D> before(ls);
  std::string w = s.str() + " query " + q.str();
  rep().eval(hash_str(w));
  if (c < 2) rep().sample(w);
  using H = GALS::INTERPOLATION::Hermite<double, Grid<D>>;
  int form = r.irange(0, 2);
  if (form == 0)
    GALS::CPU::Interpolate<double, Grid<D>, H>::compute(x, ls);
  else if (form == 1)
    H().compute(x, ls);
  else
    H()(x, ls);
  VF_CHECK(first_difference(x, x0) < 0, "query_changed", w);
  VF_CHECK(first_difference(ls.phi(), before.phi()) < 0, "phi_changed", w);
  VF_CHECK(first_difference(ls.psi(), before.psi()) < 0, "psi_changed", w);
  VF_CHECK(first_difference(ls.phiMixedDerivatives(), before.phiMixedDerivatives()) < 0, "mixed_changed", w);
  VF_CHECK(first_difference(ls.phiPrev(), before.phiPrev()) < 0, "phi_prev_changed", w);
  VF_CHECK(first_difference(ls.psiPrev(), before.psiPrev()) < 0, "psi_prev_changed", w);
  VF_CHECK(first_difference(ls.phiMixedDerivativesPrev(), before.phiMixedDerivativesPrev()) < 0, "mixed_prev_changed", w);
  H h;
  s.all([&](int i, int j, int k) {
    std::string at = VF_STR(" cell (" << i << "," << j << "," << k << ")");
    double got = ls.phiInterpPrev()(i, j, k);
    V3 gg = ls.psiInterpPrev()(i, j, k);
    if (!q.inside(i, j, k)) {
      VF_CHECK(same_bits(got, before.phiInterpPrev()(i, j, k)) && bits_equal(gg, before.psiInterpPrev()(i, j, k)), "outside_written",
               w << at << " lies outside the query's interior");
      rep().count("untouched_cells");
      return;
    }
    auto f = h.interpolate(*g, x(i, j, k), before);
    HermiteValue m = hermite_model<D>(s, before, pts[(long)gq->index(i, j, k)].b, pts[(long)gq->index(i, j, k)].x);
    VF_CHECK(near(got, f.phi_interpolated, 1e-13 * m.mag), "pointwise_value",
             w << at << " field " << Prec{got} << " point " << Prec{f.phi_interpolated});
    double extra = 0;
    for (int a = 0; a < D; ++a) extra += 30 * s.ctol(a) / s.dx(a);
    VF_CHECK(near(got, m.phi, (1e-12 + extra) * m.mag), "model_value", w << at << " field " << Prec{got} << " model " << Prec{m.phi});
    for (int a = 0; a < D; ++a) {
      VF_CHECK(near(gg[a], f.psi_interpolated[a], 1e-13 * m.gmag[a]), "pointwise_gradient",
               w << at << " axis " << a << " field " << Prec{gg[a]} << " point " << Prec{f.psi_interpolated[a]});
      VF_CHECK(near(gg[a], m.psi[a], (1e-12 + extra) * m.gmag[a]), "model_gradient",
               w << at << " axis " << a << " field " << Prec{gg[a]} << " model " << Prec{m.psi[a]});
    }
    rep().count("written_cells");
  });
  // interpolating again changes nothing
  Levelset<D> after(ls);
  GALS::CPU::Interpolate<double, Grid<D>, H>::compute(x, ls);
  VF_CHECK(first_difference(ls.phiInterpPrev(), after.phiInterpPrev()) < 0 && first_difference(ls.psiInterpPrev(), after.psiInterpPrev()) < 0,
           "repeatable", w);
  // what the results held before does not matter, one being right already included
  for (int which = 0; which < 3; ++which) {
    q.all([&](int i, int j, int k) {
      if (!q.inside(i, j, k)) return;
      if (which == 2) {
        double& v = ls.phiInterpPrev()(i, j, k);
        v = nudge(r, v);
        for (int a = 0; a < D; ++a) ls.psiInterpPrev()(i, j, k)[a] = nudge(r, ls.psiInterpPrev()(i, j, k)[a]);
      } else if (which) ls.phiInterpPrev()(i, j, k) = r.uni(-1, 1);
      else ls.psiInterpPrev()(i, j, k) = V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
    });
    GALS::CPU::Interpolate<double, Grid<D>, H>::compute(x, ls);
    bool ok = true;
    q.all([&](int i, int j, int k) {
      if (q.inside(i, j, k))
        for (int a = 0; a < 1 + D; ++a)
          ok = ok && (a ? same_bits(ls.psiInterpPrev()(i, j, k)[a - 1], after.psiInterpPrev()(i, j, k)[a - 1]) : same_bits(ls.phiInterpPrev()(i, j, k), after.phiInterpPrev()(i, j, k)));
    });
    VF_CHECK(ok, "depends_on_old_result", w << (which ? " values" : " gradients") << " had been overwritten");
    rep().count("reruns_over_overwritten_results");
  }
  // other nodal data at the same query positions
  random_prev<D>(r, s, ls, 1);
  GALS::CPU::Interpolate<double, Grid<D>, H>::compute(x, ls);
  q.all([&](int i, int j, int k) {
    if (!q.inside(i, j, k)) return;
    auto f = h.interpolate(*g, x(i, j, k), ls);
    HermiteValue m = hermite_model<D>(s, ls, pts[(long)gq->index(i, j, k)].b, pts[(long)gq->index(i, j, k)].x);
    bool ok = near(ls.phiInterpPrev()(i, j, k), f.phi_interpolated, 1e-13 * m.mag);
    double extra = 0;
    for (int a = 0; a < D; ++a) extra += 30 * s.ctol(a) / s.dx(a);
    ok = ok && near(ls.phiInterpPrev()(i, j, k), m.phi, (1e-12 + extra) * m.mag);
    for (int a = 0; a < D; ++a)
      ok = ok && near(ls.psiInterpPrev()(i, j, k)[a], f.psi_interpolated[a], 1e-13 * m.gmag[a]) && near(ls.psiInterpPrev()(i, j, k)[a], m.psi[a], (1e-12 + extra) * m.gmag[a]);
    VF_CHECK(ok, "new_data", w << " cell (" << i << "," << j << "," << k << ") after the nodal data changed");
    rep().count("cells_after_data_change");
  });
  if (round) rep().count("rounds_on_reused_objects");
  }
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("1d", 1000, 10000, [](Rng& r, long c) { one<1>(r, c); });
  cases("2d", 800, 8000, [](Rng& r, long c) { one<2>(r, c); });
  cases("3d", 500, 5000, [](Rng& r, long c) { one<3>(r, c); });
  // linear interpolation of a scalar array has the same two forms
  cases("linear", 300, 3000, [](Rng& r, long c) {
    using L = GALS::INTERPOLATION::Linear<double, Grid<1>>;
    Spec s = random_spec(r, 1, 1, 4, 600), q = s;
    if (c % 3) q.n[0] = r.irange(1, 3 * s.n[0] + 3), q.pad = r.irange(0, 3), random_box(r, q);
    auto g = make_grid<1>(s), gq = make_grid<1>(q);
    Array<1, double> a(*g), out(*gq);
    Array<1, V3> x(*gq);
    s.all([&](int i, int j, int k) { a(i, j, k) = r.uni(-1, 1); });
    q.all([&](int i, int j, int k) {
      Point p = random_point(r, s);
      p.e[0] = r.uni(0.001, 0.999);
      x(i, j, k) = q.inside(i, j, k) ? V3(s.coord(0, p.b[0]) + p.e[0] * s.dx(0), 0, 0) : V3(1e9, 1e9, 1e9);
      out(i, j, k) = r.uni(-1, 1);
    });
    Array<1, double> a0(a), old(out);
    Array<1, V3> x0(x);
    std::string w = "linear " + s.str() + " query " + q.str();
    rep().eval(hash_str(w));
    if (c % 2)
      GALS::CPU::Interpolate<double, Grid<1>, L>::compute(x, a, out);
    else
      L()(x, a, out);
    VF_CHECK(first_difference(a, a0) < 0 && first_difference(x, x0) < 0, "linear_input_changed", w);
    q.all([&](int i, int j, int k) {
      double want = q.inside(i, j, k) ? L().linearInterpolation(*g, x(i, j, k), a) : old(i, j, k);
      VF_CHECK(near(out(i, j, k), want, q.inside(i, j, k) ? 1e-13 : 0.0), q.inside(i, j, k) ? "linear_pointwise" : "linear_outside_written",
               w << " cell " << i << " field " << Prec{out(i, j, k)} << " expected " << Prec{want});
      rep().count("linear_cells");
    });
  });
  return rep().finish();
}
