// C16: analytical circular velocity and its gradient.
#include <string.h>
#include <string>
#include "gals.h"
#include "gals/analytical-fields/velocity.h"
using namespace vf;

template <int D>
void one(Rng& r, long c)
{
  Spec s = random_spec(r, D, c % 6 ? 1 : 0, 4, D == 3 ? 4000 : 3000);
  auto g = make_grid<D>(s);
  GALS::INPUT_FIELDS::Velocity in;
  bool known = D > 1 && c % 5 != 4;
  const std::vector<std::string> odd = {"", "circular", "CIRCULARS", "Circular", "NOT_DEFINED", "CIRCLE", " CIRCULAR"};
  const std::vector<std::string> schemes = {"ANALYTICAL", "ANALYTICAL", "ANALYTICAL", "SECOND_ORDER_CENTRAL", "", "analytical", "ANALYTICAL "};
  in.name = known ? "CIRCULAR" : r.pick(odd);
  in.gradient_scheme = r.pick(schemes);
  bool grad = known && in.gradient_scheme == "ANALYTICAL";
  int nc = r.pick(std::vector<int>{2, 2, 3, 3, 3, 4, 6});
  in.center.clear();
  for (int a = 0; a < nc; ++a) in.center.push_back(a < 3 ? r.uni(s.lo[a] - 1, s.hi[a] + 1) : r.uni(-9, 9));
  if (c % 3 == 0) in.vector = {r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
  LevelsetVelocity<D> lv(*g);
  bool stale = c % 2;
  Array<D, V3> pos(*g);
  std::unique_ptr<GALS::ANALYTICAL_FIELDS::Velocity<Grid<D>>> kept;
  auto instant = [&] { return r.coin(0.3) ? 0 : r.coin(0.3) ? pow(10., r.uni(-9, 12)) * (r.coin() ? 1 : -1) : r.uni(-10, 100); };
  const double time0 = instant();
  // several rounds on the same objects: nothing of an earlier round may show in a later one
  for (int round = 0, rounds = c % 4 == 1 ? 3 : 1; round < rounds; ++round) {
  // the same evaluator for new positions, or a new one for another centre, often at the same instant
  if (!kept || r.coin()) {
    for (auto& x : in.center) x += r.uni(-1, 1);
    kept.reset(new GALS::ANALYTICAL_FIELDS::Velocity<Grid<D>>(*g, in));
  }
  s.all([&](int i, int j, int k) {
    lv.velocity()(i, j, k) = V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
    for (int q = 0; q < 9; ++q) lv.velocityGradient()(i, j, k)[q] = stale ? r.uni(-1, 1) : 0;
  });
  if (c % 8 == 3) {  // the centre is one of the cells
    const V3 x = (*g)(r.irange(0, s.n[0] - 1), r.irange(0, s.n[1] - 1), r.irange(0, s.n[2] - 1));
    for (int a = 0; a < D && a < nc; ++a) in.center[a] = x[a];
    kept.reset(new GALS::ANALYTICAL_FIELDS::Velocity<Grid<D>>(*g, in));
    rep().count("centres_on_cells");
  }
  s.all([&](int i, int j, int k) {
    pos(i, j, k) = c % 2 ? (*g)(i, j, k) : V3(r.uni(-9, 9), D > 1 ? r.uni(-9, 9) : 0, D > 2 ? r.uni(-9, 9) : 0);
    if (!(c % 2) && r.coin(0.05))  // on the axis of rotation, or on a line through it
      for (int a = 0; a < 2 && a < D; ++a)
        if (r.coin(0.7)) pos(i, j, k)[a] = in.center[a];
  });
  Array<D, V3> pos0(pos);
  LevelsetVelocity<D> before(lv);
  GALS::INPUT_FIELDS::Velocity in0 = in;
  double time = round == 0 || r.coin() ? time0 : instant();
  std::string w = VF_STR("name '" << in.name << "' scheme '" << in.gradient_scheme << "' time " << time << " ") + s.str();
  rep().eval(hash_str(w));
  if (c < 2) rep().sample(w);
  auto& field = *kept;
  field.compute(pos, time, lv);
  if (c % 3 == 0 && r.coin()) field.compute(pos, time + 1, lv);  // steady: time does not matter
  VF_CHECK(first_difference(pos, pos0) < 0, "positions_changed", w);
  VF_CHECK(in.name == in0.name && in.center == in0.center && in.vector == in0.vector && in.gradient_scheme == in0.gradient_scheme,
           "inputs_changed", w);
  const double coeff = acos(-1.0) / 3.15;
  s.all([&](int i, int j, int k) {
    std::string at = VF_STR(" cell (" << i << "," << j << "," << k << ")");
    V3 v = lv.velocity()(i, j, k);
    M3 m = lv.velocityGradient()(i, j, k);
    if (!known || !s.inside(i, j, k)) {
      VF_CHECK(bits_equal(v, before.velocity()(i, j, k)) && bits_equal(m, before.velocityGradient()(i, j, k)),
               known ? "ghost_written" : "unknown_name_written", w << at);
      rep().count("cells_untouched");
      return;
    }
    double want[3] = {coeff * (in.center[1] - pos(i, j, k)[1]), coeff * (pos(i, j, k)[0] - in.center[0]), 0};
    for (int a = 0; a < D; ++a) {
      double scale = a == 2 ? 0 : fabs(in.center[1 - a]) + fabs(pos(i, j, k)[1 - a]);
      VF_CHECK(near(v[a], want[a], 1e-13 * scale), "velocity", w << at << " component " << a << " got " << Prec{v[a]} << " expected " << Prec{want[a]});
    }
    for (int cm = 0; cm < D; ++cm)
      for (int dv = 0; dv < D; ++dv) {
        if (!grad) {
          VF_CHECK(same_bits(m(cm, dv), before.velocityGradient()(i, j, k)(cm, dv)), "gradient_not_requested", w << at);
          continue;
        }
        double wg = cm == 0 && dv == 1 ? -coeff : cm == 1 && dv == 0 ? coeff : 0;
        VF_CHECK(near(m(cm, dv), wg, 1e-14), "gradient", w << at << " entry (" << cm << "," << dv << ") got " << Prec{m(cm, dv)} << " expected " << Prec{wg});
        rep().count("gradient_entries");
      }
    rep().count("cells");
  });
  if (c % 3 == 0 && known) {  // again, over a result that is almost right
    LevelsetVelocity<D> first(lv);
    disturb<D>(r, s, lv.velocity());
    if (grad) disturb<D>(r, s, lv.velocityGradient());
    field.compute(pos, time, lv);
    VF_CHECK(first_difference(lv.velocity(), first.velocity()) < 0 && first_difference(lv.velocityGradient(), first.velocityGradient()) < 0,
             "again_over_close_values", w);
    rep().count("again_over_close_values");
  }
  // a centre without enough coordinates is refused, not read out of bounds
  if (known && round == rounds - 1) {
    GALS::INPUT_FIELDS::Velocity shortened = in;
    shortened.center.resize(r.irange(0, 1));
    GALS::ANALYTICAL_FIELDS::Velocity<Grid<D>> bad(*g, shortened);
    bool thrown = false;
    try {
      bad.compute(pos, 0, lv);
    } catch (const std::exception&) {
      thrown = true;
    }
    VF_CHECK(thrown, "short_center", w << " centre with " << shortened.center.size() << " coordinates accepted");
    rep().count("short_centers");
  }
  if (round) rep().count("rounds_on_reused_objects");
  }
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("1d", 300, 3000, [](Rng& r, long c) { one<1>(r, c); });
  cases("2d", 1200, 12000, [](Rng& r, long c) { one<2>(r, c); });
  cases("3d", 700, 7000, [](Rng& r, long c) { one<3>(r, c); });
  return rep().finish();
}
