// C15: analytical level set: signed distance to a circle/sphere.
#include <string>
#include "gals.h"
#include "gals/analytical-fields/levelset.h"
#include "step.h"
using namespace vf;

template <int D>
void one(Rng& r, long c)
{
  Spec s = random_spec(r, D, c % 6 ? 1 : 0, 4, D == 3 ? 4000 : 3000);
  auto g = make_grid<D>(s);
  GALS::INPUT_FIELDS::Levelset in;
  bool known = c % 5 != 4;
  const std::vector<std::string> odd = {"", "circle", "CIRCLES", "Circle", "NOT_DEFINED", "SQUARE", "CIRCULAR", " CIRCLE"};
  in.name = known ? "CIRCLE" : r.pick(odd);
  double L = s.hi[0] - s.lo[0];
  in.radius = c % 7 == 0 ? 0 : c % 7 == 2 ? L * pow(10., r.uni(-10, -2)) : c % 7 == 3 ? L * pow(10., r.uni(0, 6)) : L * r.uni(0.01, 1.5);
  for (int a = 0; a < 3; ++a) in.center[a] = s.active(a) ? r.uni(s.lo[a] - 0.2 * L, s.hi[a] + 0.2 * L) : 0;
  Levelset<D> ls(*g);
  Array<D, V3> pos(*g);
  std::unique_ptr<GALS::ANALYTICAL_FIELDS::Levelset<Grid<D>>> kept;
  // several rounds on the same objects: nothing of an earlier round may show in a later one
  for (int round = 0, rounds = c % 4 == 1 ? 3 : 1; round < rounds; ++round) {
  // the same evaluator for new positions, or a new one for another shape
  if (!kept || r.coin()) {
    in.radius *= r.uni(0.5, 2);
    for (int a = 0; a < D; ++a) in.center[a] += L * r.uni(-0.1, 0.1);
    kept.reset(new GALS::ANALYTICAL_FIELDS::Levelset<Grid<D>>(*g, in));
  }
  junk_fields<D>(r, s, ls);
  random_prev<D>(r, s, ls);
  // positions: the grid's own, displaced, or exactly at the centre
  bool own = c % 2;
  s.all([&](int i, int j, int k) {
    if (own)
      pos(i, j, k) = (*g)(i, j, k);
    else
      pos(i, j, k) = V3(r.uni(s.lo[0], s.hi[0]), D > 1 ? r.uni(s.lo[1], s.hi[1]) : 0, D > 2 ? r.uni(s.lo[2], s.hi[2]) : 0);
    if (!own && r.coin(0.05)) pos(i, j, k) = in.center;
  });
  Array<D, V3> pos0(pos);
  Levelset<D> before(ls);
  GALS::INPUT_FIELDS::Levelset in0 = in;
  std::string w = VF_STR("name '" << in.name << "' centre " << in.center << " radius " << in.radius << " ") + s.str();
  rep().eval(hash_str(w));
  if (c < 2) rep().sample(w);
  auto& field = *kept;
  field.compute(pos, ls);
  if (c % 3 == 0) field.compute(pos, ls);  // evaluating twice is evaluating once
  VF_CHECK(first_difference(pos, pos0) < 0, "positions_changed", w);
  VF_CHECK(in.name == in0.name && bits_equal(in.center, in0.center) && in.radius == in0.radius, "inputs_changed", w);
  VF_CHECK(first_difference(ls.psi(), before.psi()) < 0 && first_difference(ls.phiPrev(), before.phiPrev()) < 0 &&
               first_difference(ls.psiPrev(), before.psiPrev()) < 0 && first_difference(ls.phiInterpPrev(), before.phiInterpPrev()) < 0 &&
               first_difference(ls.psiInterpPrev(), before.psiInterpPrev()) < 0 &&
               first_difference(ls.phiMixedDerivatives(), before.phiMixedDerivatives()) < 0 &&
               first_difference(ls.phiMixedDerivativesPrev(), before.phiMixedDerivativesPrev()) < 0,
           "other_fields_changed", w);
  s.all([&](int i, int j, int k) {
    double phi = ls.phi()(i, j, k);
    std::string at = VF_STR(" cell (" << i << "," << j << "," << k << ")");
    if (!known || !s.inside(i, j, k)) {
      VF_CHECK(same_bits(phi, before.phi()(i, j, k)), known ? "ghost_written" : "unknown_name_written", w << at);
      return;
    }
    long double d2 = 0;
    for (int a = 0; a < 3; ++a) {
      long double d = (long double)pos(i, j, k)[a] - in.center[a];
      d2 += d * d;
    }
    double want = (double)(sqrtl(d2) - in.radius);
    VF_CHECK(near(phi, want, 1e-13 * ((double)sqrtl(d2) + in.radius)), "distance",
             w << at << " at " << pos(i, j, k) << " phi " << Prec{phi} << " expected " << Prec{want});
    rep().count(phi < 0 ? "cells_inside" : "cells_outside");
  });
  if (c % 3 == 0 && known) {  // again, over a result that is almost right
    Array<D, double> first(ls.phi());
    disturb<D>(r, s, ls.phi());
    field.compute(pos, ls);
    VF_CHECK(first_difference(ls.phi(), first) < 0, "again_over_close_values", w);
    rep().count("again_over_close_values");
  }
  if (round) rep().count("rounds_on_reused_objects");
  }
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("1d", 900, 9000, [](Rng& r, long c) { one<1>(r, c); });
  cases("2d", 900, 9000, [](Rng& r, long c) { one<2>(r, c); });
  cases("3d", 600, 6000, [](Rng& r, long c) { one<3>(r, c); });
  return rep().finish();
}
