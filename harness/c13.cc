// C13: one explicit Euler step.
#include "step.h"
using namespace vf;

template <int D>
void one(Rng& r, long c)
{
  Spec s = random_spec(r, D, c % 6 ? 1 : 0, 3, D == 3 ? 3000 : 2000);
  auto g = make_grid<D>(s);
  Levelset<D> ls(*g);
  LevelsetVelocity<D> lv(*g);
  double amp = c % 4 ? 1 : pow(10., r.uni(-6, 6));
  // several rounds on the same objects: nothing of an earlier round may show in a later one
  for (int round = 0, rounds = c % 4 == 1 ? 3 : 1; round < rounds; ++round) {
  random_prev<D>(r, s, ls, amp);
  junk_fields<D>(r, s, ls);
  double dt = c % 11 == 0 ? 0.0 : (c % 9 == 8 ? -1 : 1) * pow(10., r.uni(-5, 1));
  double vs = pow(10., c % 5 == 2 ? r.uni(-14, -8) : r.uni(-3, 3));
  double ps = c % 5 == 2 ? pow(10., r.uni(0, 12)) : 1;  // slow flow through steep data
  bool still = c % 13 == 5;
  s.all([&](int i, int j, int k) {
    V3 v, p = ls.psiPrev()(i, j, k);
    for (int a = 0; a < 3; ++a) {
      v[a] = still ? 0 : vs * r.uni(-1, 1);
      p[a] *= ps;
      if (a >= D) p[a] = r.uni(-5, 5);  // inactive components must not contribute
    }
    if (c % 8 == 3)  // flow along the interface leaves phi alone
      for (int a = 0; a < D; ++a) v[a] = a == r.irange(0, D - 1) ? v[a] : 0;
    lv.velocity()(i, j, k) = v;
    ls.psiPrev()(i, j, k) = p;
    for (int q = 0; q < 9; ++q) lv.velocityGradient()(i, j, k)[q] = r.uni(-1, 1);
  });
  Levelset<D> before(ls);
  LevelsetVelocity<D> lv0(lv);
  int form = r.irange(0, 3);
  std::string w = VF_STR("form " << form << " dt " << dt << " ") + s.str();
  rep().eval(hash_str(w) ^ hash_double(lv.velocity()(0, 0, 0)[0]), s.total() > 1);
  if (c < 2) rep().sample(w);
  explicit_euler<D>(form, dt, lv, ls);
  VF_CHECK(first_difference(ls.phiPrev(), before.phiPrev()) < 0, "phi_prev_changed", w);
  VF_CHECK(first_difference(ls.psiPrev(), before.psiPrev()) < 0, "psi_prev_changed", w);
  VF_CHECK(first_difference(ls.phiMixedDerivativesPrev(), before.phiMixedDerivativesPrev()) < 0, "mixed_prev_changed", w);
  VF_CHECK(first_difference(ls.psi(), before.psi()) < 0, "psi_changed", w);
  VF_CHECK(first_difference(ls.phiMixedDerivatives(), before.phiMixedDerivatives()) < 0, "mixed_changed", w);
  VF_CHECK(first_difference(lv.velocity(), lv0.velocity()) < 0 && first_difference(lv.velocityGradient(), lv0.velocityGradient()) < 0,
           "velocity_changed", w);
  s.all([&](int i, int j, int k) {
    double phi = ls.phi()(i, j, k);
    std::string at = VF_STR(" cell (" << i << "," << j << "," << k << ")");
    if (!s.inside(i, j, k)) {
      VF_CHECK(same_bits(phi, before.phi()(i, j, k)), "ghost_written", w << at);
      return;
    }
    long double adv = 0, mag = fabs(before.phiPrev()(i, j, k));
    for (int a = 0; a < D; ++a) {
      long double t = (long double)lv0.velocity()(i, j, k)[a] * before.psiPrev()(i, j, k)[a];
      adv += t;
      mag += fabsl(t * dt);
    }
    double want = (double)(before.phiPrev()(i, j, k) - dt * adv);
    VF_CHECK(near(phi, want, 1e-13 * (double)mag), still || dt == 0 ? "phi_at_rest" : "phi",
             w << at << " phi " << Prec{phi} << " expected " << Prec{want});
    rep().count("cells");
  });
  if (c % 3 == 0) {  // again, over a result that is almost right
    Array<D, double> first(ls.phi());
    disturb<D>(r, s, ls.phi());
    explicit_euler<D>(form, dt, lv, ls);
    VF_CHECK(first_difference(ls.phi(), first) < 0, "again_over_close_values", w);
    rep().count("again_over_close_values");
  }
  if (round) rep().count("rounds_on_reused_objects");
  }
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("1d", 1500, 15000, [](Rng& r, long c) { one<1>(r, c); });
  cases("2d", 1200, 12000, [](Rng& r, long c) { one<2>(r, c); });
  cases("3d", 900, 9000, [](Rng& r, long c) { one<3>(r, c); });
  return rep().finish();
}
