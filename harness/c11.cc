// C11: linear interpolation in one dimension.
#include "gals.h"
using namespace vf;
using L = GALS::INTERPOLATION::Linear<double, Grid<1>>;

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("1d", 4000, 60000, [](Rng& r, long c) {
    Spec s = random_spec(r, 1, 1, 5, 1500);
    if (c % 50 == 0) s.n[0] = c % 500 == 0 ? r.irange(66000, 70000) : r.irange(1000, 4000);
    auto g = make_grid<1>(s);
    Array<1, double> a(*g);
    double amp = c % 3 ? 1 : pow(10., r.uni(-8, 8));
    bool affine = c % 5 == 0;
    double p = amp * r.uni(-1, 1), q = amp * r.uni(-1, 1);
    auto line = [&](double x) { return p + q * (x - s.lo[0]) / (s.hi[0] - s.lo[0]); };
    s.all([&](int i, int j, int k) { a(i, j, k) = affine ? line(s.coord(0, i)) : amp * r.uni(-1, 1); });
    Array<1, double> a0(a);
    std::string w = s.str();
    rep().eval(s.hash());
    if (c < 2) rep().sample(w);
    double cs = 20 * s.ctol(0) / s.dx(0), reach = 1 + 2.0 * s.pad;
    auto judge = [&](const Point& pt, double got, const char* how) {
      double f0 = a0(pt.b[0], 0, 0), f1 = a0(pt.b[0] + 1, 0, 0);
      double want = (double)((1 - (long double)pt.e[0]) * f0 + (long double)pt.e[0] * f1);
      double tol = (1e-13 + cs) * 8 * (fabs(p) + fabs(q) * reach + amp);
      VF_CHECK(near(got, want, tol), "weighted_mean", how << " " << w << " " << pt.str() << " got " << Prec{got} << " expected " << Prec{want});
      VF_CHECK(got >= std::min(f0, f1) - tol && got <= std::max(f0, f1) + tol, "bounds",
               how << " " << w << " " << pt.str() << " got " << Prec{got} << " outside [" << f0 << "," << f1 << "]");
      if (affine) VF_CHECK(near(got, line(pt.x[0]), tol), "affine_exact", how << " " << w << " " << pt.str());
      rep().count("points");
    };
    L l;
    for (int t = 0; t < 30; ++t) {
      Point pt = random_point(r, s);
      if ((pt.b[0] == -s.pad && pt.e[0] < 1e-7) || (pt.b[0] == s.n[0] + s.pad - 2 && pt.e[0] > 1 - 1e-7)) continue;
      V3 x(pt.x[0], r.coin() ? 0 : r.uni(-9, 9), r.coin() ? 0 : r.uni(-9, 9));
      judge(pt, l.linearInterpolation(*g, x, a), "point");
    }
    // nodes
    for (int t = 0; t < 5; ++t) {
      int lo = -s.pad + 1, hi = s.n[0] + s.pad - 2;
      if (lo > hi) break;
      int b = r.irange(lo, hi);
      double got = l.linearInterpolation(*g, (*g)(b, 0, 0), a);
      VF_CHECK(near(got, a0(b, 0, 0), (1e-13 + cs) * 8 * (amp + fabs(p) + fabs(q) * reach)), "node", w << " node " << b << " got " << Prec{got});
      rep().count("nodes");
    }
    // whole fields; the query may have any number of cells, and the output keeps everything else
    Spec qs = s;
    if (c % 2) {
      qs.n[0] = r.irange(1, std::min(3 * s.n[0] + 5, 20000));
      qs.pad = r.irange(0, 3);
      random_box(r, qs);
    }
    auto gq = make_grid<1>(qs);
    Array<1, V3> x(*gq);
    Array<1, double> out(*gq);
    std::map<int, Point> pts;
    qs.all([&](int i, int, int) {
      Point pt = random_point(r, s);
      pt.e[0] = r.uni(0.001, 0.999);
      pt.x[0] = s.coord(0, pt.b[0]) + pt.e[0] * s.dx(0);
      pts[i] = pt;
      x(i, 0, 0) = qs.inside(i, 0, 0) ? V3(pt.x[0], 0, 0) : V3(1e9, 1e9, 1e9);
      out(i, 0, 0) = r.uni(-1, 1);
    });
    Array<1, V3> x0(x);
    Array<1, double> old(out);
    int form = r.irange(0, 2);
    if (form == 0)
      GALS::CPU::Interpolate<double, Grid<1>, L>::compute(x, a, out);
    else if (form == 1)
      L().compute(x, a, out);
    else
      L()(x, a, out);
    qs.all([&](int i, int, int) {
      if (qs.inside(i, 0, 0)) {
        judge(pts[i], out(i, 0, 0), "field");
        rep().count("field_cells");
      } else
        VF_CHECK(same_bits(out(i, 0, 0), old(i, 0, 0)), "ghost_written", w << " query " << qs.str() << " cell " << i);
    });
    VF_CHECK(first_difference(a, a0) < 0, "input_changed", w);
    VF_CHECK(first_difference(x, x0) < 0, "query_changed", w);
  });
  return rep().finish();
}
