// C06: gradient of a vector field is its Jacobian: row = component, column = direction.
#include "c0506.h"
using namespace vf;

template <int D>
void one(Rng& r, long c)
{
  int scheme = r.coin() ? 2 : 3;
  Spec s = random_spec(r, D, scheme - 1, 4, D == 3 ? 4000 : 2000);
  int data = (int)(c % N_DATA);
  Form form = (Form)r.irange(0, 3);
  std::string w = VF_STR("scheme=" << scheme << " data=" << data_name(data) << " form=" << form << " ") + s.str();
  rep().eval(hash_str(w));
  rep().count(VF_STR("fields_scheme" << scheme << "_" << D << "d"));
  if (c < 1) rep().sample(w);
  auto g = make_grid<D>(s);
  Array<D, V3> a(*g);
  Array<D, M3> grad(*g);
  Poly p[3] = {Poly::random(r, s, scheme == 2 ? 2 : 3), Poly::random(r, s, scheme == 2 ? 2 : 3), Poly::random(r, s, scheme == 2 ? 2 : 3)};
  double constant = r.uni(-5, 5);
  // several rounds on the same objects: nothing of an earlier round may show in a later one
  for (int round = 0, rounds = c % 4 == 1 ? 3 : 1; round < rounds; ++round) {
  s.all([&](int i, int j, int k) {
    double x[3] = {s.coord(0, i), s.coord(1, j), s.coord(2, k)};
    for (int q = 0; q < 3; ++q) a(i, j, k)[q] = data == POLY ? p[q].eval(x) : draw(r, data, constant * (q + 1));
    for (int q = 0; q < 9; ++q) grad(i, j, k)[q] = r.uni(-9, 9);
  });
  Array<D, V3> a0(a);
  Array<D, M3> old(grad);
  run_gradient<D>(scheme, form, a, grad);
  VF_CHECK(first_difference(a, a0) < 0, "input_changed", w << " element " << first_difference(a, a0));
  Array<D, M3> first(grad);
  s.all([&](int i, int j, int k) {
    const M3 got = grad(i, j, k);
    std::string at = VF_STR(" cell (" << i << "," << j << "," << k << ")");
    for (int cm = 0; cm < 3; ++cm)
      for (int ax = 0; ax < 3; ++ax) {
        if (!s.inside(i, j, k) || ax >= D || cm >= D) {
          VF_CHECK(same_bits(got(cm, ax), old(i, j, k)(cm, ax)), s.inside(i, j, k) ? "inactive_component" : "ghost_written",
                   w << at << " entry (" << cm << "," << ax << ")");
          continue;
        }
        double mag, want = stencil(s, scheme, ax, i, j, k, [&](int I, int J, int K) { return a0(I, J, K)[cm]; }, mag);
        VF_CHECK(near(got(cm, ax), want, 1e-12 * mag + 1e-300), "stencil",
                 w << at << " d(component " << cm << ")/d(axis " << ax << ") got " << Prec{got(cm, ax)} << " expected " << Prec{want});
        if (data == POLY) {
          double x[3] = {s.coord(0, i), s.coord(1, j), s.coord(2, k)};
          double exact = p[cm].eval(x, ax == 0, ax == 1, ax == 2);
          double tol = 1e-9 * p[cm].amp(1.5 + 2.0 * s.pad) / s.dx(ax) * (1 + 1e-4 * (fabs(s.lo[ax]) / (s.hi[ax] - s.lo[ax])));
          VF_CHECK(near(got(cm, ax), exact, tol), "polynomial_exact",
                   w << at << " d(component " << cm << ")/d(axis " << ax << ") got " << Prec{got(cm, ax)} << " exact " << Prec{exact});
          rep().count("polynomial_derivatives");
        }
      }
    rep().count("cells");
  });
  if (c % 3 == 0) disturb<D>(r, s, grad);
  run_gradient<D>(scheme, STATIC_CLASS, a, grad);
  VF_CHECK(first_difference(grad, first) < 0, "repeatable", w << " element " << first_difference(grad, first));
  // every row is the scalar gradient of that component
  for (int cm = 0; cm < D; ++cm) {
    Array<D, double> f(*g);
    Array<D, V3> gf(*g);
    for (std::size_t q = 0; q < f.size(); ++q) f[q] = a[q][cm];
    run_gradient<D>(scheme, form, f, gf);
    s.interior([&](int i, int j, int k) {
      for (int ax = 0; ax < D; ++ax) {
        double mag;
        stencil(s, scheme, ax, i, j, k, [&](int I, int J, int K) { return f(I, J, K); }, mag);
        VF_CHECK(near(first(i, j, k)(cm, ax), gf(i, j, k)[ax], 1e-12 * mag + 1e-300), "row_is_scalar_gradient",
                 w << " cell (" << i << "," << j << "," << k << ") entry (" << cm << "," << ax << ")");
      }
    });
  }
  // the spacing is that of the field, also if the result is kept on a grid object of the same shape with another box
  {
    Spec s2 = s;
    random_box(r, s2);
    auto g2 = make_grid<D>(s2);
    Array<D, M3> elsewhere(*g2);
    run_gradient<D>(scheme, form, a, elsewhere);
    s.interior([&](int i, int j, int k) {
      for (int q = 0; q < 9; ++q)
        VF_CHECK(near(elsewhere(i, j, k)[q], (q / 3 < D && q % 3 < D) ? first(i, j, k)[q] : 0.0, 1e-12 * fabs(first(i, j, k)[q])), "result_grid",
                 w << " cell (" << i << "," << j << "," << k << ") element " << q << " result on " << s2.str());
    });
    rep().count("results_on_another_grid");
  }
  if (round) rep().count("rounds_on_reused_objects");
  }
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("1d", 600, 6000, [](Rng& r, long c) { one<1>(r, c); });
  cases("2d", 500, 5000, [](Rng& r, long c) { one<2>(r, c); });
  cases("3d", 400, 4000, [](Rng& r, long c) { one<3>(r, c); });
  return rep().finish();
}
