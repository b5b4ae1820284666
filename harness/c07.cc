// C07: Hermite interpolation reproduces tensor-product cubic polynomials, value and gradient, everywhere.
#include "gals.h"
using namespace vf;

template <int D>
void one(Rng& r, long c)
{
  Spec s = random_spec(r, D, 1, 4, D == 3 ? 4000 : 2500);
  auto g = make_grid<D>(s);
  Levelset<D> ls(*g);
  int deg = c % 5 == 4 ? r.irange(0, 2) : 3;
  Poly p = Poly::random(r, s, deg);
  if (c % 4 == 1)  // a single monomial isolates one coefficient of the scheme
    for (int i = 0; i < 5; ++i)
      for (int j = 0; j < 5; ++j)
        for (int k = 0; k < 5; ++k) p.c[i][j][k] = 0;
  if (c % 4 == 1) {
    int q = (int)((c / 4) % 64);
    p.c[q & 3][D > 1 ? (q >> 2) & 3 : 0][D > 2 ? (q >> 4) & 3 : 0] = r.uni(0.5, 2);
    p.deg = 3;
  }
  poly_prev<D>(s, p, ls);
  GALS::INTERPOLATION::Hermite<double, Grid<D>> h;
  std::string w = VF_STR("degree " << deg << " ") + s.str();
  if (c == 0) rep().sample(w);
  rep().count(VF_STR("fields_" << D << "d"));
  auto judge = [&](const Point& pt, double phi, const V3& psi, const char* how) {
    int b[3];
    for (int a = 0; a < 3; ++a) b[a] = pt.b[a];
    HermiteValue m = hermite_model<D>(s, ls, b, pt.x);
    m.mag += 1e-2 * p.amp();  // rounding may place a point of a face in the neighbouring cell
    for (int a = 0; a < D; ++a) m.gmag[a] += 1e-2 * p.amp() / s.dx(a);
    double want = p.eval(pt.x), tol = 1e-12 * m.mag + 1e-300;
    for (int a = 0; a < D; ++a) tol += 10 * s.ctol(a) * m.gmag[a];
    VF_CHECK(near(phi, want, tol), VF_STR("value_" << D << "d"),
             how << " " << w << " " << pt.str() << " value " << Prec{phi} << " polynomial " << Prec{want});
    for (int a = 0; a < D; ++a) {
      double wg = p.eval(pt.x, a == 0, a == 1, a == 2), tg = 1e-12 * m.gmag[a] + 1e-300;
      for (int q = 0; q < D; ++q) tg += 20 * s.ctol(q) * m.gmag[a] / s.dx(q);
      VF_CHECK(near(psi[a], wg, tg), VF_STR("gradient_" << D << "d"),
               how << " " << w << " " << pt.str() << " axis " << a << " gradient " << Prec{psi[a]} << " polynomial " << Prec{wg});
    }
  };
  for (int t = 0; t < 40; ++t) {
    Point pt = random_point(r, s);
    V3 x(pt.x[0], pt.x[1], pt.x[2]);
    // keep clear of the outermost node, where rounding could place the point outside the padded grid
    bool edge = false;
    for (int a = 0; a < D; ++a)
      if ((pt.b[a] == -s.pad && pt.e[a] < 1e-7) || (pt.b[a] == s.n[a] + s.pad - 2 && pt.e[a] > 1 - 1e-7)) edge = true;
    if (edge) continue;
    auto f = h.interpolate(*g, x, ls);
    judge(pt, f.phi_interpolated, f.psi_interpolated, "interpolate");
    rep().eval(mix(s.hash()) ^ hash_double(pt.x[0]) ^ (hash_double(pt.x[1]) << 1) ^ (hash_double(pt.x[2]) << 2));
    rep().count("points");
  }
  // the same through whole-field interpolation
  std::vector<Point> pts;
  Array<D, V3> xi(*g);
  s.interior([&](int i, int j, int k) {
    Point pt = random_point(r, s);
    for (int a = 0; a < D; ++a) {
      pt.e[a] = r.uni(0.001, 0.999);
      pt.x[a] = s.coord(a, pt.b[a]) + pt.e[a] * s.dx(a);
    }
    pts.push_back(pt);
    xi(i, j, k) = V3(pt.x[0], pt.x[1], pt.x[2]);
  });
  GALS::CPU::Interpolate<double, Grid<D>, GALS::INTERPOLATION::Hermite<double, Grid<D>>>::compute(xi, ls);
  std::size_t q = 0;
  s.interior([&](int i, int j, int k) {
    judge(pts[q++], ls.phiInterpPrev()(i, j, k), ls.psiInterpPrev()(i, j, k), "field");
    rep().count("field_points");
  });
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("1d", 1200, 12000, [](Rng& r, long c) { one<1>(r, c); });
  cases("2d", 1000, 10000, [](Rng& r, long c) { one<2>(r, c); });
  cases("3d", 800, 8000, [](Rng& r, long c) { one<3>(r, c); });
  return rep().finish();
}
