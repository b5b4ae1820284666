// C05: gradient of a scalar field.
#include "c0506.h"
using namespace vf;

template <int D>
void one(Rng& r, long c)
{
  int scheme = r.coin() ? 2 : 3;
  Spec s = random_spec(r, D, scheme - 1, 4, D == 3 ? 6000 : 3000);
  int data = (int)(c % N_DATA);
  Form form = (Form)r.irange(0, 3);
  std::string w = VF_STR("scheme=" << scheme << " data=" << data_name(data) << " form=" << form << " ") + s.str();
  rep().eval(hash_str(w));
  rep().count(VF_STR("fields_scheme" << scheme << "_" << D << "d"));
  if (c < 1) rep().sample(w);
  auto g = make_grid<D>(s);
  Array<D, double> a(*g);
  Array<D, V3> grad(*g);
  Poly p = Poly::random(r, s, scheme == 2 ? 2 : 3);
  double constant = r.uni(-5, 5);
  // several rounds on the same objects: nothing of an earlier round may show in a later one
  for (int round = 0, rounds = c % 4 == 1 ? 3 : 1; round < rounds; ++round) {
  s.all([&](int i, int j, int k) {
    double x[3] = {s.coord(0, i), s.coord(1, j), s.coord(2, k)};
    a(i, j, k) = data == POLY ? p.eval(x) : draw(r, data, constant);
    grad(i, j, k) = V3(r.uni(-9, 9), r.uni(-9, 9), r.uni(-9, 9));  // stale content that must be replaced
  });
  Array<D, double> a0(a);
  Array<D, V3> old(grad);
  run_gradient<D>(scheme, form, a, grad);
  VF_CHECK(first_difference(a, a0) < 0, "input_changed", w << " element " << first_difference(a, a0));
  Array<D, V3> first(grad);
  // the scheme promises its result whatever the box's distance from the origin, up to rounding of coordinates
  s.all([&](int i, int j, int k) {
    const V3 got = grad(i, j, k);
    std::string at = VF_STR(" cell (" << i << "," << j << "," << k << ")");
    for (int ax = 0; ax < 3; ++ax) {
      if (!s.inside(i, j, k) || ax >= D) {
        VF_CHECK(same_bits(got[ax], old(i, j, k)[ax]), s.inside(i, j, k) ? "inactive_component" : "ghost_written",
                 w << at << " axis " << ax << " changed from " << old(i, j, k)[ax] << " to " << got[ax]);
        continue;
      }
      double mag, want = stencil(s, scheme, ax, i, j, k, [&](int I, int J, int K) { return a0(I, J, K); }, mag);
      VF_CHECK(near(got[ax], want, 1e-12 * mag + 1e-300), "stencil",
               w << at << " axis " << ax << " got " << Prec{got[ax]} << " expected " << Prec{want});
      if (data == POLY) {
        double x[3] = {s.coord(0, i), s.coord(1, j), s.coord(2, k)};
        double exact = p.eval(x, ax == 0, ax == 1, ax == 2);
        // rounding of the node coordinates enters through the scaled polynomial
        double tol = 1e-9 * p.amp(1.5 + 2.0 * s.pad) / s.dx(ax) * (1 + 1e-4 * (fabs(s.lo[ax]) / (s.hi[ax] - s.lo[ax])));
        VF_CHECK(near(got[ax], exact, tol), "polynomial_exact",
                 w << at << " axis " << ax << " got " << Prec{got[ax]} << " exact " << Prec{exact} << " tol " << tol);
        rep().count("polynomial_derivatives");
      }
    }
    rep().count("cells");
  });
  // again, and into an array on another grid object of the same shape
  if (c % 3 == 0) disturb<D>(r, s, grad);
  run_gradient<D>(scheme, STATIC_CLASS, a, grad);
  VF_CHECK(first_difference(grad, first) < 0, "repeatable", w << " element " << first_difference(grad, first));
  // linearity over superposed fields: gradient(2a) = 2 gradient(a) exactly in binary arithmetic
  Array<D, double> b(*g);
  Array<D, V3> gb(*g);
  for (std::size_t q = 0; q < b.size(); ++q) b[q] = 2 * a[q];
  run_gradient<D>(scheme, form, b, gb);
  s.interior([&](int i, int j, int k) {
    for (int ax = 0; ax < D; ++ax)
      VF_CHECK(near(gb(i, j, k)[ax], 2 * first(i, j, k)[ax], 1e-12 * fabs(first(i, j, k)[ax])), "scaling",
               w << " cell (" << i << "," << j << "," << k << ")");
  });
  // the spacing is that of the field, also if the result is kept on a grid object of the same shape with another box
  {
    Spec s2 = s;
    random_box(r, s2);
    auto g2 = make_grid<D>(s2);
    Array<D, V3> elsewhere(*g2);
    run_gradient<D>(scheme, form, a, elsewhere);
    s.interior([&](int i, int j, int k) {
      for (int q = 0; q < D; ++q)
        VF_CHECK(near(elsewhere(i, j, k)[q], first(i, j, k)[q], 1e-12 * fabs(first(i, j, k)[q])), "result_grid",
                 w << " cell (" << i << "," << j << "," << k << ") element " << q << " result on " << s2.str());
    });
    rep().count("results_on_another_grid");
  }
  if (round) rep().count("rounds_on_reused_objects");
  }
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("1d", 1000, 10000, [](Rng& r, long c) { one<1>(r, c); });
  cases("2d", 800, 8000, [](Rng& r, long c) { one<2>(r, c); });
  cases("3d", 600, 6000, [](Rng& r, long c) { one<3>(r, c); });
  return rep().finish();
}
