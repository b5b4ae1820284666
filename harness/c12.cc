// C12: one semi-Lagrangian step.
#include "step.h"
using namespace vf;

template <int D>
void one(Rng& r, long c)
{
  Spec s = random_spec(r, D, 1, 4, D == 3 ? 3000 : 2000);
  auto g = make_grid<D>(s);
  Levelset<D> ls(*g);
  LevelsetVelocity<D> lv(*g);
  double amp = c % 4 ? 1 : pow(10., r.uni(-6, 6));
  double dt = 0;
  // several rounds on the same objects: nothing of an earlier round may show in a later one
  for (int round = 0, rounds = c % 4 == 1 ? 3 : 1; round < rounds; ++round) {
  random_prev<D>(r, s, ls, amp);
  junk_fields<D>(r, s, ls);
  if (round == 0 || r.coin()) dt = pow(10., r.uni(-4, 1));
  if (c % 9 == 8) dt = -fabs(dt);  // backwards in time
  if (c % 13 == 12) dt = 0;        // no time passes
  int kind = dt == 0 ? 4 : (int)(c % 6);   // 0,1 small CFL; 2,3 anywhere in the padded grid; 4 no motion; 5 whole-cell shifts
  const double slight = c % 5 == 2 ? pow(10., r.uni(-11, -7)) : 1;  // a flow that hardly deforms
  std::map<long, Point> root;
  int shift[3] = {0, 0, 0};
  for (int a = 0; a < D; ++a) shift[a] = r.irange(-s.pad, s.pad);
  s.all([&](int i, int j, int k) {
    int id[3] = {i, j, k};
    Point p;
    V3 v;
    for (int a = 0; a < 3; ++a) {
      p.b[a] = 0, p.e[a] = 0, p.x[a] = 0;
      if (a >= D) {
        v[a] = r.coin() ? 0 : r.uni(-3, 3);
        continue;
      }
      if (kind <= 1) {
        double f = r.uni(-0.98, 0.98);
        p.b[a] = f < 0 ? id[a] - 1 : id[a];
        p.e[a] = f < 0 ? 1 + f : f;
        if (p.e[a] < 1e-4) p.e[a] = 1e-4;
      } else if (kind <= 3) {
        p.b[a] = r.irange(-s.pad, s.n[a] + s.pad - 2);
        p.e[a] = r.uni(1e-4, 1 - 1e-4);
        if (kind == 3 && r.coin(0.3)) p.b[a] = r.coin() ? -s.pad : s.n[a] + s.pad - 2;
      } else if (kind == 4) {
        p.b[a] = id[a];
      } else {
        // an exact whole number of cells, kept strictly inside
        int t = id[a] - shift[a];
        if (t < -s.pad + 1) t = -s.pad + 1;
        if (t > s.n[a] + s.pad - 2) t = s.n[a] + s.pad - 2;
        p.b[a] = t;
      }
      p.x[a] = s.coord(a, p.b[a]) + p.e[a] * s.dx(a);
      v[a] = dt == 0 ? r.uni(-5, 5) : kind == 4 ? 0.0 : (s.coord(a, id[a]) - p.x[a]) / dt;
    }
    if (!s.inside(i, j, k)) v = V3(1e6, -1e6, 1e6);  // ghost velocities take no part
    lv.velocity()(i, j, k) = v;
    M3 m;
    for (int q = 0; q < 9; ++q) m[q] = (q / 3 < D && q % 3 < D) ? (c % 7 ? slight * r.uni(-1, 1) / (dt == 0 ? 1.0 : fabs(dt)) : 0.0) : 0.0;
    lv.velocityGradient()(i, j, k) = m;
    root[(long)g->index(i, j, k)] = p;
  });
  Levelset<D> before(ls);
  LevelsetVelocity<D> lv0(lv);
  int form = r.irange(0, 2);
  std::string w = VF_STR("kind " << kind << " dt " << dt << " ") + s.str();
  rep().eval(hash_str(w) ^ hash_double(lv.velocity()(0, 0, 0)[0]));
  rep().count(VF_STR("steps_" << D << "d_kind" << kind));
  if (c < 2) rep().sample(w);
  semi_lagrangian<D>(form, dt, lv, ls);
  VF_CHECK(first_difference(ls.phiPrev(), before.phiPrev()) < 0, "phi_prev_changed", w);
  VF_CHECK(first_difference(ls.psiPrev(), before.psiPrev()) < 0, "psi_prev_changed", w);
  VF_CHECK(first_difference(ls.phiMixedDerivativesPrev(), before.phiMixedDerivativesPrev()) < 0, "mixed_prev_changed", w);
  VF_CHECK(first_difference(ls.phiMixedDerivatives(), before.phiMixedDerivatives()) < 0, "mixed_changed", w);
  VF_CHECK(first_difference(lv.velocity(), lv0.velocity()) < 0 && first_difference(lv.velocityGradient(), lv0.velocityGradient()) < 0,
           "velocity_changed", w);
  double extra = 0;
  for (int a = 0; a < D; ++a) extra += 40 * s.ctol(a) / s.dx(a);
  // rounding of x - u dt grows with the displacement
  s.all([&](int i, int j, int k) {
    std::string at = VF_STR(" cell (" << i << "," << j << "," << k << ")");
    double phi = ls.phi()(i, j, k);
    V3 psi = ls.psi()(i, j, k);
    if (!s.inside(i, j, k)) {
      VF_CHECK(same_bits(phi, before.phi()(i, j, k)) && bits_equal(psi, before.psi()(i, j, k)), "ghost_written", w << at);
      return;
    }
    const Point& p = root[(long)g->index(i, j, k)];
    HermiteValue m = hermite_model<D>(s, before, p.b, p.x);
    double mag = m.mag + (kind >= 4 ? 8 * amp : 0);
    VF_CHECK(near(phi, m.phi, (1e-12 + extra) * mag), "phi",
             w << at << " from " << p.str() << " phi " << Prec{phi} << " expected " << Prec{m.phi});
    for (int a = 0; a < D; ++a) {
      long double want = 0, ma = 0;
      for (int b = 0; b < D; ++b) {
        long double M = (a == b ? 1.0L : 0.0L) - (long double)dt * lv0.velocityGradient()(i, j, k)(b, a);
        want += M * m.psi[b];
        ma += ((a == b ? 1 : 0) + fabsl((long double)dt * lv0.velocityGradient()(i, j, k)(b, a))) * (m.gmag[b] + (kind >= 4 ? 8 * amp / s.dx(b) : 0));
      }
      VF_CHECK(near(psi[a], (double)want, (1e-12 + extra) * (double)ma), "psi",
               w << at << " from " << p.str() << " axis " << a << " psi " << Prec{psi[a]} << " expected " << Prec{(double)want});
    }
    rep().count("cells");
  });
  if (c % 3 == 0) {  // again, over a result that is almost right
    Array<D, double> phi1(ls.phi());
    Array<D, V3> psi1(ls.psi());
    disturb<D>(r, s, ls.phi()), disturb<D>(r, s, ls.psi()), disturb<D>(r, s, ls.phiInterpPrev()), disturb<D>(r, s, ls.psiInterpPrev());
    semi_lagrangian<D>(form, dt, lv, ls);
    VF_CHECK(first_difference(ls.phi(), phi1) < 0 && first_difference(ls.psi(), psi1) < 0, "again_over_close_values", w);
    rep().count("again_over_close_values");
  }
  if (round) rep().count("rounds_on_reused_objects");
  }
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("1d", 1500, 15000, [](Rng& r, long c) { one<1>(r, c); });
  cases("2d", 1200, 12000, [](Rng& r, long c) { one<2>(r, c); });
  cases("3d", 900, 9000, [](Rng& r, long c) { one<3>(r, c); });
  return rep().finish();
}
