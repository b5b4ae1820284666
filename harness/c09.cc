// C09: gradient-limited Hermite interpolation.
#include "gals.h"
using namespace vf;

// Independent model of the limited cubic along one edge: control points in Bernstein form.
struct Edge {
  long double c[4];
  bool limited = false, tie = false, secant = false;
};
// exact: every quantity involved is a small integer (times powers of two), so the branches are not decided by rounding
static Edge limit_edge(double p0, double g0, double p1, double g1, double h, bool exact = false)
{
  Edge e;
  long double* c = e.c;
  c[0] = p0, c[1] = p0 + (long double)g0 * h / 3, c[2] = p1 - (long double)g1 * h / 3, c[3] = p1;
  long double D1 = 3 * (c[1] - c[0]), D2 = 3 * (c[3] - c[2]), D3 = 1.5L * (c[2] - c[0]), D4 = 1.5L * (c[3] - c[1]), D5 = c[3] - c[0];
  long double scale = fabsl(c[0]) + fabsl(c[1]) + fabsl(c[2]) + fabsl(c[3]);
  long double eps = 1e-11L * scale + 1e-300L;
  e.secant = D1 == D5 || D2 == D5;
  auto tie = [&](long double v) {
    if (!exact && fabsl(v) <= eps) e.tie = true;  // a branch decided by rounding
  };
  long double spread = std::max(std::max(fabsl(D1 - D5), fabsl(D2 - D5)), std::max(fabsl(D3 - D5), fabsl(D4 - D5)));
  if (spread <= 1e-15L * scale) return e;  // a straight line: every branch gives the same control points
  tie(D1 - D3), tie(D1 - D5), tie(D2 - D4), tie(D2 - D5);
  if ((D1 - D3) * (D1 - D5) < 0)
    c[2] = 2 * c[1] - c[0], e.limited = true;
  else if ((D2 - D4) * (D2 - D5) < 0)
    c[1] = 2 * c[2] - c[3], e.limited = true;
  else if ((D1 - D5) * (D2 - D5) <= 0)
    c[1] = (2 * c[0] + c[3]) / 3, c[2] = (2 * c[3] + c[0]) / 3, e.limited = true;
  return e;
}
static long double bez(const Edge& e, long double t)
{
  long double u = 1 - t;
  return u * u * u * e.c[0] + 3 * t * u * u * e.c[1] + 3 * t * t * u * e.c[2] + t * t * t * e.c[3];
}
static long double bez_d(const Edge& e, long double t)
{
  long double u = 1 - t;
  return 3 * (u * u * (e.c[1] - e.c[0]) + 2 * u * t * (e.c[2] - e.c[1]) + t * t * (e.c[3] - e.c[2]));
}

// Would any edge of the cell, or (3D) any of the derivative curves, be changed by limiting?
template <int D>
bool cell_limited(const Spec& s, const Levelset<D>& ls, const int* b, bool& tie)
{
  bool any = false;
  auto N = [&](int i, int j, int k) { return node_data<D>(ls, b[0] + i, D > 1 ? b[1] + j : 0, D > 2 ? b[2] + k : 0); };
  for (int ax = 0; ax < D; ++ax)
    for (int q = 0; q < 4; ++q) {
      int o1 = q & 1, o2 = q >> 1;
      if (D == 1 && q) continue;
      if (D == 2 && o2) continue;
      int lo[3] = {0, 0, 0}, hi[3];
      int other[2], m = 0;
      for (int a = 0; a < D; ++a)
        if (a != ax) other[m++] = a;
      if (m > 0) lo[other[0]] = o1;
      if (m > 1) lo[other[1]] = o2;
      for (int a = 0; a < 3; ++a) hi[a] = lo[a];
      hi[ax] = 1;
      Node A = N(lo[0], lo[1], lo[2]), B = N(hi[0], hi[1], hi[2]);
      // every derivative in the other directions, differentiated along this edge
      for (int d = 0; d < (D == 3 ? 4 : 1); ++d) {
        int x[3] = {0, 0, 0};
        if (m > 0) x[other[0]] = d & 1;
        if (m > 1) x[other[1]] = d >> 1;
        int y[3] = {x[0], x[1], x[2]};
        y[ax] = 1;
        Edge e = limit_edge(A.d[x[0]][x[1]][x[2]], A.d[y[0]][y[1]][y[2]], B.d[x[0]][x[1]][x[2]], B.d[y[0]][y[1]][y[2]], s.dx(ax));
        any = any || e.limited;
        tie = tie || e.tie;
      }
    }
  return any;
}

template <int D>
void one(Rng& r, long c)
{
  Spec s = random_spec(r, D, 1, 3, D == 3 ? 1500 : 800);
  int data = (int)(c % 5);
  if (data == 4)  // exact arithmetic: spacings are powers of two
    for (int a = 0; a < D; ++a) {
      s.n[a] = 1 << r.irange(0, D == 1 ? 5 : D == 2 ? 4 : 2);
      s.lo[a] = r.irange(-8, 8) * 0.5;
      s.hi[a] = s.lo[a] + s.n[a] * ldexp(1.0, r.irange(-4, 3));
    }
  auto g = make_grid<D>(s);
  Levelset<D> ls(*g);
  double amp = c % 3 ? 1 : pow(10., r.uni(-6, 6));
  Poly lin = Poly::random(r, s, 1, 1);
  double gentle[3] = {r.uni(0.5, 2), r.uni(0.5, 2), r.uni(0.5, 2)};
  double bump = r.uni(0.001, 0.05);
  if (data == 0 || data == 1)
    random_prev<D>(r, s, ls, amp);
  else if (data == 2)  // linear: nothing for a limiter to do
    poly_prev<D>(s, lin, ls);
  else if (data == 4) {
    // multiples of three: a slope often equals the secant, or the control points are collinear, exactly
    amp = 60;
    s.all([&](int i, int j, int k) {
      ls.phiPrev()(i, j, k) = 3.0 * r.irange(-3, 3);
      for (int a = 0; a < 3; ++a) ls.psiPrev()(i, j, k)[a] = a < D ? 3.0 * r.irange(-5, 5) / s.dx(a) : 0;
    });
  } else {
    // node slopes somewhat steeper than the secants: nothing for the limiter to do, except at a few spikes
    amp = 10;
    s.all([&](int i, int j, int k) {
      int id[3] = {i, j, k};
      V3 gr;
      double v = 0;
      for (int a = 0; a < D; ++a) {
        double t = id[a];
        v += gentle[a] * t;
        gr[a] = gentle[a] * r.uni(1.05, 1.3 + bump) / s.dx(a);
        if (r.coin(0.05)) gr[a] *= r.uni(-4, 4);
      }
      ls.phiPrev()(i, j, k) = v;
      ls.psiPrev()(i, j, k) = gr;
    });
    for (int a = 0; a < D; ++a) amp += (s.n[a] + 6.0) * 3;
  }
  GALS::INTERPOLATION::Hermite<double, Grid<D>> h;
  std::string w = VF_STR("data " << data << " ") + s.str();
  if (c == 0) rep().sample(w);
  auto run = [&](const double* x, bool limit) { return h.interpolate(*g, V3(x[0], x[1], x[2]), ls, limit); };
  double cs = 0, fl = 4 * amp + lin.amp(4);
  for (int a = 0; a < D; ++a) cs += 20 * s.ctol(a) / s.dx(a);
  // 1. along edges: the one-dimensional limited cubic
  for (int t = 0; t < 40; ++t) {
    int ax = r.irange(0, D - 1);
    int b[3] = {0, 0, 0};
    double x[3] = {0, 0, 0};
    bool ok = true;
    for (int a = 0; a < D; ++a) {
      int lo = -s.pad + (a == ax ? 0 : 1), hi = s.n[a] + s.pad - 2;
      if (lo > hi) {
        ok = false;
        break;
      }
      b[a] = r.irange(lo, hi);
      x[a] = s.coord(a, b[a]);
    }
    if (!ok) continue;
    double e = t % 4 == 0 ? r.uni(0.001, 0.05) : t % 4 == 1 ? r.uni(0.95, 0.999) : r.uni(0.01, 0.99);
    x[ax] += e * s.dx(ax);
    int b1[3] = {b[0], b[1], b[2]};
    b1[ax]++;
    Node A = node_data<D>(ls, b[0], b[1], b[2]), B = node_data<D>(ls, b1[0], b1[1], b1[2]);
    double g0 = ax == 0 ? A.d[1][0][0] : ax == 1 ? A.d[0][1][0] : A.d[0][0][1];
    double g1 = ax == 0 ? B.d[1][0][0] : ax == 1 ? B.d[0][1][0] : B.d[0][0][1];
    Edge ed = limit_edge(A.d[0][0][0], g0, B.d[0][0][0], g1, s.dx(ax), data == 4);
    if (ed.tie && data != 2) {
      rep().count("edges_skipped_tie");
      continue;
    }
    auto f = run(x, true);
    std::string at = VF_STR(" edge along " << ax << " from (" << b[0] << "," << b[1] << "," << b[2] << ") at fraction " << e);
    if (data == 2) {
      VF_CHECK(near(f.phi_interpolated, lin.eval(x), (1e-12 + cs) * fl), "linear_value",
               w << at << " " << Prec{f.phi_interpolated} << " expected " << Prec{lin.eval(x)});
      VF_CHECK(near(f.psi_interpolated[ax], lin.eval(x, ax == 0, ax == 1, ax == 2), (1e-11 + cs) * fl / s.dx(ax)), "linear_gradient",
               w << at << " " << Prec{f.psi_interpolated[ax]});
    } else {
      VF_CHECK(near(f.phi_interpolated, (double)bez(ed, e), (1e-12 + cs) * fl), ed.limited ? "limited_edge_value" : "smooth_edge_value",
               w << at << " value " << Prec{f.phi_interpolated} << " expected " << Prec{(double)bez(ed, e)});
      VF_CHECK(near(f.psi_interpolated[ax], (double)(bez_d(ed, e) / s.dx(ax)), (1e-11 + cs) * fl / s.dx(ax)),
               ed.limited ? "limited_edge_slope" : "smooth_edge_slope",
               w << at << " slope " << Prec{f.psi_interpolated[ax]} << " expected " << Prec{(double)(bez_d(ed, e) / s.dx(ax))});
    }
    rep().count(ed.limited ? "edges_limited" : "edges_unlimited");
    if (data == 4) rep().count(ed.secant ? "edges_slope_equals_secant" : "edges_exact");
    rep().eval(mix(s.hash()) ^ hash_double(x[0]) ^ (hash_double(x[1]) << 1) ^ (hash_double(x[2]) << 2), true);
  }
  std::vector<Point> defaults;
  // 2. nodes keep their values; cells with nothing to limit are untouched; linear fields are reproduced
  for (int t = 0; t < 40; ++t) {
    Point pt = random_point(r, s);
    for (int a = 0; a < D; ++a) {
      pt.e[a] = r.uni(0.001, 0.999);
      pt.x[a] = s.coord(a, pt.b[a]) + pt.e[a] * s.dx(a);
    }
    auto lim = run(pt.x, true), plain = run(pt.x, false);
    {  // limiting is off unless asked for
      auto def = h.interpolate(*g, V3(pt.x[0], pt.x[1], pt.x[2]), ls);
      HermiteValue m = hermite_model<D>(s, ls, pt.b, pt.x);
      VF_CHECK(near(def.phi_interpolated, m.phi, (1e-12 + cs) * (m.mag + fl)), "off_by_default",
               w << " " << pt.str() << " " << Prec{def.phi_interpolated} << " unlimited " << Prec{m.phi});
      for (int a = 0; a < D; ++a)
        VF_CHECK(near(def.psi_interpolated[a], m.psi[a], (1e-11 + cs) * (m.gmag[a] + fl / s.dx(a))), "off_by_default", w << " " << pt.str());
      rep().count("default_calls");
      defaults.push_back(pt);
    }
    bool finite = std::isfinite(lim.phi_interpolated);
    VF_CHECK(finite, "finite", w << " " << pt.str());
    if (data == 2) {
      VF_CHECK(near(lim.phi_interpolated, lin.eval(pt.x), (1e-12 + cs) * fl), "linear_value", w << " " << pt.str());
      for (int a = 0; a < D; ++a)
        VF_CHECK(near(lim.psi_interpolated[a], lin.eval(pt.x, a == 0, a == 1, a == 2), (1e-11 + cs) * fl / s.dx(a)), "linear_gradient",
                 w << " " << pt.str() << " axis " << a << " " << Prec{lim.psi_interpolated[a]});
      rep().count("linear_points");
      continue;
    }
    bool tie = false, any = cell_limited<D>(s, ls, pt.b, tie);
    if (!any && !tie) {
      VF_CHECK(near(lim.phi_interpolated, plain.phi_interpolated, 1e-13 * fl), "smooth_cell_changed",
               w << " " << pt.str() << " limited " << Prec{lim.phi_interpolated} << " plain " << Prec{plain.phi_interpolated});
      for (int a = 0; a < D; ++a)
        VF_CHECK(near(lim.psi_interpolated[a], plain.psi_interpolated[a], 1e-13 * fl / s.dx(a)), "smooth_cell_changed", w << " " << pt.str());
      rep().count(VF_STR("cells_nothing_to_limit_" << D << "d"));
    } else
      rep().count(any ? "cells_limited" : "cells_tie");
    // node
    int b[3] = {pt.b[0], pt.b[1], pt.b[2]};
    bool ok = true;
    double x[3];
    for (int a = 0; a < 3; ++a) {
      x[a] = s.coord(a, b[a]);
      if (a < D && b[a] == -s.pad) ok = false;
    }
    if (ok) {
      auto n = run(x, true);
      VF_CHECK(near(n.phi_interpolated, ls.phiPrev()(b[0], b[1], b[2]), (1e-12 + cs) * fl), "node_value",
               w << " node (" << b[0] << "," << b[1] << "," << b[2] << ") " << Prec{n.phi_interpolated});
      rep().count("nodes");
    }
  }
  // ... and whole fields are interpolated without it
  Array<D, V3> xq(*g);
  std::size_t used = 0;
  s.interior([&](int i, int j, int k) {
    const Point& p = defaults[used++ % defaults.size()];
    xq(i, j, k) = V3(p.x[0], p.x[1], p.x[2]);
  });
  GALS::CPU::Interpolate<double, Grid<D>, GALS::INTERPOLATION::Hermite<double, Grid<D>>>::compute(xq, ls);
  used = 0;
  s.interior([&](int i, int j, int k) {
    const Point& p = defaults[used++ % defaults.size()];
    HermiteValue m = hermite_model<D>(s, ls, p.b, p.x);
    VF_CHECK(near(ls.phiInterpPrev()(i, j, k), m.phi, (1e-12 + cs) * (m.mag + fl)), "field_unlimited",
             w << " " << p.str() << " " << Prec{ls.phiInterpPrev()(i, j, k)} << " unlimited " << Prec{m.phi});
    rep().count("field_calls");
  });
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("1d", 1500, 15000, [](Rng& r, long c) { one<1>(r, c); });
  cases("2d", 1500, 15000, [](Rng& r, long c) { one<2>(r, c); });
  cases("3d", 1000, 10000, [](Rng& r, long c) { one<3>(r, c); });
  return rep().finish();
}
