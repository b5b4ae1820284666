// C08: for arbitrary nodal data the interpolant matches that data at the nodes, is continuously differentiable across
// cell faces, uses the enclosing cell's nodes only, and equals the tensor-product cubic Hermite patch.
#include "gals.h"
using namespace vf;

template <int D>
std::string cellstr(const int* b)
{
  return VF_STR(" node (" << b[0] << "," << b[1] << "," << b[2] << ")");
}
// rounding may place a point of a face in the neighbouring cell, whose data then sets the size of rounding errors
template <int D>
HermiteValue floor_mag(const Spec& s, HermiteValue m, double amp)
{
  m.mag += 4 * amp;
  for (int a = 0; a < D; ++a) m.gmag[a] += 4 * amp / s.dx(a);
  return m;
}
template <int D>
double tol_phi(const Spec& s, const HermiteValue& m)
{
  double t = 1e-12 * m.mag + 1e-300;
  for (int a = 0; a < D; ++a) t += 10 * s.ctol(a) * m.gmag[a];
  return t;
}
template <int D>
double tol_psi(const Spec& s, const HermiteValue& m, int ax)
{
  double t = 1e-12 * m.gmag[ax] + 1e-300;
  for (int a = 0; a < D; ++a) t += 30 * s.ctol(a) * m.gmag[ax] / s.dx(a);
  return t;
}

template <int D>
void one(Rng& r, long c)
{
  Spec s = random_spec(r, D, 1, 4, D == 3 ? 2500 : 1500);
  auto g = make_grid<D>(s);
  Levelset<D> ls(*g);
  double amp = c % 3 ? 1 : pow(10., r.uni(-8, 8));
  random_prev<D>(r, s, ls, amp);
  if (c % 5 == 3)  // sparse data: single derivatives stand out
    s.all([&](int i, int j, int k) {
      if (r.coin(0.7)) ls.phiPrev()(i, j, k) = 0;
      if (r.coin(0.7)) ls.psiPrev()(i, j, k) = V3(0, 0, 0);
      auto& m = ls.phiMixedDerivativesPrev()(i, j, k);
      for (int q = 0; q < (D == 1 ? 0 : D == 2 ? 1 : 4); ++q)
        if (r.coin(0.7)) m[q] = 0;
    });
  // fields that interpolation must not use
  s.all([&](int i, int j, int k) {
    ls.phi()(i, j, k) = qnan();
    ls.psi()(i, j, k) = V3(qnan(), qnan(), qnan());
    ls.phiInterpPrev()(i, j, k) = qnan();
    ls.psiInterpPrev()(i, j, k) = V3(qnan(), qnan(), qnan());
  });
  GALS::INTERPOLATION::Hermite<double, Grid<D>> h;
  std::string w = s.str();
  if (c == 0) rep().sample(w);
  auto interp = [&](const double* x, double* out) {
    V3 p(x[0], x[1], x[2]);
    for (int a = D; a < 3; ++a) p[a] = r.coin() ? 0 : r.uni(-50, 50);  // coordinates along inactive axes mean nothing
    auto f = h.interpolate(*g, p, ls);
    out[0] = f.phi_interpolated;
    for (int a = 0; a < 3; ++a) out[a + 1] = f.psi_interpolated[a];
  };
  double out[4];
  // 1. the patch
  for (int t = 0; t < 30; ++t) {
    Point pt = random_point(r, s);
    bool edge = false;
    for (int a = 0; a < D; ++a)
      if ((pt.b[a] == -s.pad && pt.e[a] < 1e-7) || (pt.b[a] == s.n[a] + s.pad - 2 && pt.e[a] > 1 - 1e-7)) edge = true;
    if (edge) continue;
    interp(pt.x, out);
    HermiteValue m = floor_mag<D>(s, hermite_model<D>(s, ls, pt.b, pt.x), amp);
    VF_CHECK(near(out[0], m.phi, tol_phi<D>(s, m)), VF_STR("patch_value_" << D << "d"),
             w << " " << pt.str() << " value " << Prec{out[0]} << " expected " << Prec{m.phi});
    for (int a = 0; a < 3; ++a)
      VF_CHECK(a < D ? near(out[a + 1], m.psi[a], tol_psi<D>(s, m, a)) : out[a + 1] == 0, VF_STR("patch_gradient_" << D << "d"),
               w << " " << pt.str() << " axis " << a << " gradient " << Prec{out[a + 1]} << " expected " << Prec{m.psi[a]});
    rep().eval(mix(s.hash()) ^ hash_double(pt.x[0]) ^ (hash_double(pt.x[1]) << 1) ^ (hash_double(pt.x[2]) << 2));
    rep().count("patch_points");
  }
  // 2. at every kind of node (not the outermost), value and gradient of the data
  for (int t = 0; t < 20; ++t) {
    int b[3] = {0, 0, 0};
    double x[3] = {0, 0, 0};
    bool ok = true;
    for (int a = 0; a < D; ++a) {
      int lo = -s.pad + 1, hi = s.n[a] + s.pad - 2;
      if (lo > hi) ok = false;
      else b[a] = r.irange(lo, hi);
      x[a] = (*g)(b[0], b[1], b[2])[a];
    }
    if (!ok) continue;
    for (int a = 0; a < D; ++a) x[a] = (*g)(b[0], b[1], b[2])[a];
    interp(x, out);
    HermiteValue m = floor_mag<D>(s, hermite_model<D>(s, ls, b, x), amp);
    VF_CHECK(near(out[0], ls.phiPrev()(b[0], b[1], b[2]), tol_phi<D>(s, m)), "node_value",
             w << cellstr<D>(b) << " value " << Prec{out[0]} << " data " << Prec{ls.phiPrev()(b[0], b[1], b[2])});
    for (int a = 0; a < D; ++a)
      VF_CHECK(near(out[a + 1], ls.psiPrev()(b[0], b[1], b[2])[a], tol_psi<D>(s, m, a)), "node_gradient",
               w << cellstr<D>(b) << " axis " << a << " gradient " << Prec{out[a + 1]} << " data "
                 << Prec{ls.psiPrev()(b[0], b[1], b[2])[a]});
    rep().count("node_points");
  }
  // 3. value and every gradient component agree on both sides of a face
  for (int t = 0; t < 15; ++t) {
    Point pt = random_point(r, s);
    int ax = r.irange(0, D - 1);
    if (pt.b[ax] - 1 < -s.pad) continue;
    bool ok = true;
    for (int a = 0; a < D; ++a) {
      if (a == ax) continue;
      pt.e[a] = r.uni(0.01, 0.99);
      pt.x[a] = s.coord(a, pt.b[a]) + pt.e[a] * s.dx(a);
    }
    const double del = 1e-7;
    double xl[3], xr[3], ol[4], orr[4];
    for (int a = 0; a < 3; ++a) xl[a] = xr[a] = pt.x[a];
    xl[ax] = s.coord(ax, pt.b[ax]) - del * s.dx(ax);
    xr[ax] = s.coord(ax, pt.b[ax]) + del * s.dx(ax);
    if (!ok) continue;
    interp(xl, ol);
    interp(xr, orr);
    int bl[3] = {pt.b[0], pt.b[1], pt.b[2]};
    bl[ax] -= 1;
    HermiteValue ml = hermite_model<D>(s, ls, bl, xl), mr = hermite_model<D>(s, ls, pt.b, xr);
    double slack = 40 * del;  // the interpolant itself changes by O(del) between the two points
    VF_CHECK(near(ol[0], orr[0], slack * (ml.mag + mr.mag) + tol_phi<D>(s, ml) + tol_phi<D>(s, mr)), "face_value",
             w << " face normal to " << ax << " at " << pt.str() << " left " << Prec{ol[0]} << " right " << Prec{orr[0]});
    for (int a = 0; a < D; ++a)
      VF_CHECK(near(ol[a + 1], orr[a + 1], slack * (ml.gmag[a] + mr.gmag[a]) + tol_psi<D>(s, ml, a) + tol_psi<D>(s, mr, a)),
               "face_gradient",
               w << " face normal to " << ax << " at " << pt.str() << " axis " << a << " left " << Prec{ol[a + 1]} << " right "
                 << Prec{orr[a + 1]});
    rep().count("face_points");
  }
  // 4. only the nodes of the enclosing cell matter: everything else poisoned
  Levelset<D> poisoned(*g);
  for (int t = 0; t < 3; ++t) {
    Point pt = random_point(r, s);
    for (int a = 0; a < D; ++a) {
      pt.e[a] = r.uni(0.01, 0.99);
      pt.x[a] = s.coord(a, pt.b[a]) + pt.e[a] * s.dx(a);
    }
    s.all([&](int i, int j, int k) {
      int id[3] = {i, j, k};
      bool mine = true;
      for (int a = 0; a < D; ++a) mine = mine && (id[a] == pt.b[a] || id[a] == pt.b[a] + 1);
      poisoned.phiPrev()(i, j, k) = mine ? ls.phiPrev()(i, j, k) : qnan();
      poisoned.psiPrev()(i, j, k) = mine ? ls.psiPrev()(i, j, k) : V3(qnan(), qnan(), qnan());
      auto& m = poisoned.phiMixedDerivativesPrev()(i, j, k);
      for (int q = 0; q < (D == 1 ? 0 : D == 2 ? 1 : 4); ++q) m[q] = mine ? ls.phiMixedDerivativesPrev()(i, j, k)[q] : qnan();
      if (mine && D < 3)
        for (int a = D; a < 3; ++a) poisoned.psiPrev()(i, j, k)[a] = qnan();
    });
    interp(pt.x, out);
    V3 p(pt.x[0], pt.x[1], pt.x[2]);
    auto f = h.interpolate(*g, p, poisoned);
    bool same = f.phi_interpolated == out[0];
    for (int a = 0; a < D; ++a) same = same && f.psi_interpolated[a] == out[a + 1];
    VF_CHECK(same, "locality", w << " " << pt.str() << " depends on nodes outside its cell: " << f.phi_interpolated << " vs " << out[0]);
    rep().count("locality_points");
  }
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("1d", 1200, 12000, [](Rng& r, long c) { one<1>(r, c); });
  cases("2d", 1200, 12000, [](Rng& r, long c) { one<2>(r, c); });
  cases("3d", 1000, 10000, [](Rng& r, long c) { one<3>(r, c); });
  return rep().finish();
}
