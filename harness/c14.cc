// C14: histories of steps. A trace of operations on a level set is followed by an independent specification that knows
// the effect of every operation on every field; polynomials carried by affine flows are followed over many steps; and
// simultaneous simulations do not influence each other.
#include "step.h"
using namespace vf;

// ------------------------------------------------------------------ 1. exact transport of cubics by affine flows
template <int D>
void affine(Rng& r, long c)
{
  Spec s;
  for (;;) {
    s = random_spec(r, D, 3, 4, D == 3 ? 2500 : 1500, 2);
    bool ok = true;
    for (int a = 0; a < D; ++a) ok = ok && s.n[a] <= 30;
    if (ok) break;
  }
  auto g = make_grid<D>(s);
  Levelset<D> ls(*g);
  LevelsetVelocity<D> lv(*g);
  Poly p = Poly::random(r, s, 3, 3);
  int steps = r.irange(3, 12);
  std::string w = VF_STR("affine flow, " << steps << " steps, ") + s.str();
  rep().eval(hash_str(w));
  if (c == 0) rep().sample(w);
  // x0 = M x + t: where the point x of the current time was at the start
  long double M[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, t[3] = {0, 0, 0};
  auto value = [&](const double* x, const int* d) -> double {
    // derivative along the axes listed in d (-1 terminated) of p(M x + t)
    double y[3] = {0, 0, 0};
    for (int a = 0; a < D; ++a) {
      long double v = t[a];
      for (int b = 0; b < D; ++b) v += M[a][b] * x[b];
      y[a] = (double)v;
    }
    int m = 0;
    while (d[m] >= 0) ++m;
    long double sum = 0;
    int total = 1;
    for (int q = 0; q < m; ++q) total *= D;
    for (int q = 0; q < total; ++q) {
      int rem = q, ord[3] = {0, 0, 0};
      long double f = 1;
      for (int z = 0; z < m; ++z) {
        int a = rem % D;
        rem /= D;
        ord[a]++;
        f *= M[a][d[z]];
      }
      if (f != 0) sum += f * p.eval(y, ord[0], ord[1], ord[2]);
    }
    return (double)sum;
  };
  auto exact_node = [&](int i, int j, int k, double& phi, V3& psi, double* mixed) {
    double x[3] = {s.coord(0, i), s.coord(1, j), s.coord(2, k)};
    int none[] = {-1};
    phi = value(x, none);
    psi = V3(0, 0, 0);
    for (int a = 0; a < D; ++a) {
      int d[] = {a, -1};
      psi[a] = value(x, d);
    }
    if (D >= 2) {
      int d[] = {0, 1, -1};
      mixed[0] = value(x, d);
    }
    if (D == 3) {
      int yz[] = {1, 2, -1}, zx[] = {2, 0, -1}, xyz[] = {0, 1, 2, -1};
      mixed[1] = value(x, yz), mixed[2] = value(x, zx), mixed[3] = value(x, xyz);
    }
  };
  s.all([&](int i, int j, int k) {
    double m[4];
    exact_node(i, j, k, ls.phi()(i, j, k), ls.psi()(i, j, k), m);
  });
  for (int n = 0; n < steps; ++n) {
    double dt = pow(10., r.uni(-3, 0)) * (r.coin(0.2) ? -1 : 1);
    // |u dt| <= 2 cells everywhere
    long double A[3][3] = {{0}}, b[3] = {0};
    double xc[3];
    for (int a = 0; a < D; ++a) {
      xc[a] = 0.5 * (s.lo[a] + s.hi[a]);
      b[a] = r.uni(-0.7, 0.7) * s.dx(a) / dt;
      for (int q = 0; q < D; ++q) A[a][q] = r.uni(-1.2, 1.2) / D * s.dx(a) / (dt * 0.5 * (s.hi[q] - s.lo[q]));
    }
    bool uniform = c % 3 == 0;
    if (uniform) memset(A, 0, sizeof A);
    // previous fields: what the last step produced inside, exact data in the ghosts and for the mixed derivatives
    ls.phiPrev() = ls.phi();
    ls.psiPrev() = ls.psi();
    double maxphi = 0, maxpsi[3] = {0, 0, 0};
    s.all([&](int i, int j, int k) {
      double phi, m[4] = {0, 0, 0, 0};
      V3 psi;
      exact_node(i, j, k, phi, psi, m);
      maxphi = std::max(maxphi, fabs(phi));
      for (int a = 0; a < D; ++a) maxpsi[a] = std::max(maxpsi[a], fabs(psi[a]));
      for (int q = 0; q < n_mixed<D>(); ++q) ls.phiMixedDerivativesPrev()(i, j, k)[q] = m[q];
      if (!s.inside(i, j, k)) ls.phiPrev()(i, j, k) = phi, ls.psiPrev()(i, j, k) = psi;
      V3 u;
      M3 gu;
      double x[3] = {s.coord(0, i), s.coord(1, j), s.coord(2, k)};
      for (int a = 0; a < D; ++a) {
        long double v = b[a];
        for (int q = 0; q < D; ++q) v += A[a][q] * ((long double)x[q] - xc[q]), gu(a, q) = (double)A[a][q];
        u[a] = (double)v;
      }
      lv.velocity()(i, j, k) = u;
      lv.velocityGradient()(i, j, k) = gu;
    });
    semi_lagrangian<D>(r.irange(0, 2), dt, lv, ls);
    // x -> x - dt (A (x - xc) + b)
    long double N[3][3], o[3], M2[3][3], t2[3];
    for (int a = 0; a < D; ++a) {
      o[a] = -dt * b[a];
      for (int q = 0; q < D; ++q) N[a][q] = (a == q) - dt * A[a][q], o[a] += dt * A[a][q] * xc[q];
    }
    for (int a = 0; a < D; ++a) {
      t2[a] = t[a];
      for (int q = 0; q < D; ++q) {
        t2[a] += M[a][q] * o[q];
        M2[a][q] = 0;
        for (int z = 0; z < D; ++z) M2[a][q] += M[a][z] * N[z][q];
      }
    }
    for (int a = 0; a < D; ++a) {
      t[a] = t2[a];
      for (int q = 0; q < D; ++q) M[a][q] = M2[a][q];
    }
    double amp = p.amp(0.5 + 1.0 * s.pad);
    double cs = 0;
    for (int a = 0; a < D; ++a) cs += 60 * s.ctol(a) / s.dx(a);
    s.interior([&](int i, int j, int k) {
      double phi, m[4];
      V3 psi;
      exact_node(i, j, k, phi, psi, m);
      double scale = maxphi + 1e-3 * amp;
      VF_CHECK(near(ls.phi()(i, j, k), phi, (1e-11 + cs) * (n + 1) * 4 * scale), "transport_value",
               w << " step " << n + 1 << " cell (" << i << "," << j << "," << k << ") phi " << Prec{ls.phi()(i, j, k)} << " exact " << Prec{phi});
      for (int a = 0; a < D; ++a) {
        double sc = maxpsi[a] + scale / s.dx(a);
        for (int q = 0; q < D; ++q) sc += maxpsi[q] * s.dx(q) / s.dx(a);
        VF_CHECK(near(ls.psi()(i, j, k)[a], psi[a], (1e-11 + cs) * (n + 1) * 8 * sc), "transport_gradient",
                 w << " step " << n + 1 << " cell (" << i << "," << j << "," << k << ") axis " << a << " psi " << Prec{ls.psi()(i, j, k)[a]}
                   << " exact " << Prec{psi[a]});
      }
      rep().count("transported_cells");
    });
    rep().count("affine_steps");
  }
}

// ------------------------------------------------------------------ 2. trace specification over operation sequences
template <int D>
void trace(Rng& r, long c)
{
  Spec s = random_spec(r, D, 2, 4, D == 3 ? 1200 : 600);
  auto g = make_grid<D>(s);
  Levelset<D> ls(*g);
  LevelsetVelocity<D> lv(*g);
  random_prev<D>(r, s, ls);
  junk_fields<D>(r, s, ls, true);
  std::string ops;
  double extra = 0;
  for (int a = 0; a < D; ++a) extra += 40 * s.ctol(a) / s.dx(a);
  int len = r.irange(4, 14);
  for (int n = 0; n < len; ++n) {
    Levelset<D> before(ls);
    LevelsetVelocity<D> vbefore(lv);
    int op = r.irange(0, 6);
    bool may[10] = {false};  // phi psi mixed phiPrev psiPrev mixedPrev phiInterp psiInterp velocity gradient
    std::map<long, HermiteValue> want;
    double dt = pow(10., r.uni(-3, 0)) * (r.coin(0.2) ? -1 : 1);
    if (r.coin(0.1)) dt = 0;
    ops += " ";
    ops += "SEIGCVM"[op];
    std::string w = VF_STR("history" << ops << " ") + s.str();
    switch (op) {
      case 0: case 2: {  // semi-Lagrangian step, or interpolation at scattered points
        Array<D, V3> x(*g);
        std::map<long, Point> pts;
        s.interior([&](int i, int j, int k) {
          Point p = random_point(r, s);
          int id[3] = {i, j, k};
          for (int a = 0; a < D; ++a) {
            p.e[a] = r.uni(1e-4, 1 - 1e-4);
            if (op == 0) p.b[a] = id[a] - r.irange(-1, 2);
            if (p.b[a] > s.n[a] + s.pad - 2) p.b[a] = s.n[a] + s.pad - 2;
            if (op == 0 && dt == 0) p.b[a] = id[a], p.e[a] = 0;
            p.x[a] = s.coord(a, p.b[a]) + p.e[a] * s.dx(a);
            if (op == 0) {
              lv.velocity()(i, j, k)[a] = dt == 0 ? r.uni(-3, 3) : (s.coord(a, id[a]) - p.x[a]) / dt;
              for (int q = 0; q < D; ++q) lv.velocityGradient()(i, j, k)(a, q) = r.uni(-0.3, 0.3) / (dt == 0 ? 1.0 : dt);
            }
          }
          x(i, j, k) = V3(p.x[0], p.x[1], p.x[2]);
          pts[(long)g->index(i, j, k)] = p;
        });
        vbefore.velocity() = lv.velocity();
        vbefore.velocityGradient() = lv.velocityGradient();
        if (op == 0)
          semi_lagrangian<D>(r.irange(0, 2), dt, lv, ls);
        else
          GALS::CPU::Interpolate<double, Grid<D>, GALS::INTERPOLATION::Hermite<double, Grid<D>>>::compute(x, ls);
        may[6] = may[7] = true;
        if (op == 0) may[0] = may[1] = true;
        s.interior([&](int i, int j, int k) {
          const Point& p = pts[(long)g->index(i, j, k)];
          HermiteValue m = hermite_model<D>(s, before, p.b, p.x);
          std::string at = VF_STR(" cell (" << i << "," << j << "," << k << ")");
          double around = 0;  // at rest the departure point is a node: rounding decides which of the cells around it is used
          if (op == 0 && dt == 0)
            for (int dk = D > 2 ? -1 : 0; dk <= (D > 2); ++dk)
              for (int dj = D > 1 ? -1 : 0; dj <= (D > 1); ++dj)
                for (int di = -1; di <= 1; ++di) {
                  GALS::CPU::Vec3<int> q(i + di, j + dj, k + dk);
                  double scale = fabs(before.phiPrev()(q));
                  for (int a = 0; a < D; ++a) scale += s.dx(a) * fabs(before.psiPrev()(q)[a]);
                  for (int z = 0; z < n_mixed<D>(); ++z) {
                    double h = z == 3 ? s.dx(0) * s.dx(1) * s.dx(2) : s.dx(z) * s.dx((z + 1) % D);
                    scale += h * fabs(before.phiMixedDerivativesPrev()(q)[z]);
                  }
                  around += 10 * scale;
                }
          double got = op == 0 ? ls.phi()(i, j, k) : ls.phiInterpPrev()(i, j, k);
          V3 gp = op == 0 ? ls.psi()(i, j, k) : ls.psiInterpPrev()(i, j, k);
          VF_CHECK(near(got, m.phi, (1e-12 + extra) * (m.mag + around)), "trace_phi", w << at << " got " << Prec{got} << " expected " << Prec{m.phi});
          for (int a = 0; a < D; ++a) {
            double e = m.psi[a], mg = m.gmag[a];
            if (op == 0) {
              e = 0, mg = 0;
              for (int b = 0; b < D; ++b) {
                double k1 = (a == b) - dt * lv.velocityGradient()(i, j, k)(b, a);
                e += k1 * m.psi[b];
                mg += (fabs(k1) + 0.5) * (m.gmag[b] + around / s.dx(b));
              }
            }
            VF_CHECK(near(gp[a], e, (1e-12 + extra) * mg), "trace_psi", w << at << " axis " << a << " got " << Prec{gp[a]} << " expected " << Prec{e});
          }
        });
        break;
      }
      case 1: {  // explicit Euler
        s.interior([&](int i, int j, int k) {
          for (int a = 0; a < D; ++a) lv.velocity()(i, j, k)[a] = r.uni(-1, 1);
        });
        vbefore.velocity() = lv.velocity();
        explicit_euler<D>(r.irange(0, 3), dt, lv, ls);
        may[0] = true;
        s.interior([&](int i, int j, int k) {
          double e = before.phiPrev()(i, j, k), mg = fabs(e);
          for (int a = 0; a < D; ++a) {
            double q = dt * lv.velocity()(i, j, k)[a] * before.psiPrev()(i, j, k)[a];
            e -= q, mg += fabs(q);
          }
          VF_CHECK(near(ls.phi()(i, j, k), e, 1e-12 * mg), "trace_explicit",
                   w << " cell (" << i << "," << j << "," << k << ") got " << Prec{ls.phi()(i, j, k)} << " expected " << Prec{e});
        });
        break;
      }
      case 3: {  // psi = gradient of phi, velocity gradient from velocity
        bool third = r.coin(), vthird = r.coin();
        if (third)
          GALS::CPU::Gradient<double, Grid<D>, GALS::CPU::ThirdOrder<double, Grid<D>>>::compute(ls.phi(), ls.psi());
        else
          GALS::CPU::Gradient<double, Grid<D>, GALS::CPU::SecondOrderCentral<double, Grid<D>>>::compute(ls.phi(), ls.psi());
        if (vthird)
          GALS::CPU::Gradient<double, Grid<D>, GALS::CPU::ThirdOrder<double, Grid<D>>>::compute(lv.velocity(), lv.velocityGradient());
        else
          GALS::CPU::Gradient<double, Grid<D>, GALS::CPU::SecondOrderCentral<double, Grid<D>>>::compute(lv.velocity(), lv.velocityGradient());
        may[1] = may[9] = true;
        s.interior([&](int i, int j, int k) {
          for (int a = 0; a < D; ++a) {
            int d[3] = {a == 0, a == 1, a == 2};
            auto slope = [&](bool t, double f1, double f0, double b1, double b2, double& mg) {
              mg = (fabs(f1) + fabs(b1) + (t ? fabs(f0) + fabs(b2) : 0)) / s.dx(a);
              return t ? (2 * f1 + 3 * f0 - 6 * b1 + b2) / (6 * s.dx(a)) : (f1 - b1) / (2 * s.dx(a));
            };
            auto f = [&](int o) { return before.phi()(i + o * d[0], j + o * d[1], k + o * d[2]); };
            double fm, fe = slope(third, f(1), f(0), f(-1), f(-2), fm);
            VF_CHECK(near(ls.psi()(i, j, k)[a], fe, 1e-11 * fm), "trace_gradient", w << " cell (" << i << "," << j << "," << k << ") axis " << a);
            for (int m = 0; m < D; ++m) {
              auto v = [&](int o) { return vbefore.velocity()(i + o * d[0], j + o * d[1], k + o * d[2])[m]; };
              double mg, e = slope(vthird, v(1), v(0), v(-1), v(-2), mg);
              VF_CHECK(near(lv.velocityGradient()(i, j, k)(m, a), e, 1e-11 * mg), "trace_velocity_gradient",
                       w << " cell (" << i << "," << j << "," << k << ") entry (" << m << "," << a << ")");
            }
          }
        });
        break;
      }
      case 4:  // commit: current becomes previous
        ls.phiPrev() = ls.phi();
        ls.psiPrev() = ls.psi();
        may[3] = may[4] = true;
        VF_CHECK(first_difference(ls.phiPrev(), before.phi()) < 0 && first_difference(ls.psiPrev(), before.psi()) < 0, "trace_commit", w);
        break;
      case 5: {  // the history continues on a copy of the objects
        Levelset<D> other(ls);
        VF_CHECK(first_difference(other.phi(), before.phi()) < 0, "trace_copy", w);
        other.phi()(0, 0, 0) += 1;
        other.phiPrev()(0, 0, 0) += 1;
        other.psi()(0, 0, 0) = V3(7, 7, 7);
        break;
      }
      default: {  // an unrelated simulation runs in between
        Spec s2 = random_spec(r, D, 1, 3, 300);
        auto g2 = make_grid<D>(s2);
        Levelset<D> l2(*g2);
        LevelsetVelocity<D> v2(*g2);
        random_prev<D>(r, s2, l2);
        semi_lagrangian<D>(0, 0.1, v2, l2);
        explicit_euler<D>(0, 0.1, v2, l2);
      }
    }
    // everything the operation has no business touching is as it was, bit for bit; ghosts always
    auto keep = [&](const char* name, bool changed, bool allowed) { VF_CHECK(allowed || !changed, VF_STR("trace_" << name << "_touched"), w); };
    keep("phi", first_difference(ls.phi(), before.phi()) >= 0, may[0]);
    keep("psi", first_difference(ls.psi(), before.psi()) >= 0, may[1]);
    keep("mixed", first_difference(ls.phiMixedDerivatives(), before.phiMixedDerivatives()) >= 0, may[2]);
    keep("phi_prev", first_difference(ls.phiPrev(), before.phiPrev()) >= 0, may[3]);
    keep("psi_prev", first_difference(ls.psiPrev(), before.psiPrev()) >= 0, may[4]);
    keep("mixed_prev", first_difference(ls.phiMixedDerivativesPrev(), before.phiMixedDerivativesPrev()) >= 0, may[5]);
    keep("velocity", first_difference(lv.velocity(), vbefore.velocity()) >= 0, may[8]);
    keep("velocity_gradient", first_difference(lv.velocityGradient(), vbefore.velocityGradient()) >= 0, may[9]);
    if (op != 4)
      s.all([&](int i, int j, int k) {
        if (s.inside(i, j, k)) return;
        VF_CHECK(same_bits(ls.phi()(i, j, k), before.phi()(i, j, k)) && bits_equal(ls.psi()(i, j, k), before.psi()(i, j, k)), "trace_ghost",
                 w << " ghost (" << i << "," << j << "," << k << ")");
      });
    rep().count(VF_STR("op_" << "SEIGCVM"[op]));
  }
  rep().eval(hash_str(ops + s.str()));
  if (c == 0) rep().sample("history" + ops + " on " + s.str());
}

// ------------------------------------------------------------------ 3. simulations side by side
template <int D>
struct Sim {
  Spec s;
  Rng r;
  GridPtr<D> g;
  std::unique_ptr<Levelset<D>> ls;
  std::unique_ptr<LevelsetVelocity<D>> lv;
  explicit Sim(uint64_t seed) : r(seed)
  {
    s = random_spec(r, D, 2, 3, 500);
    g = make_grid<D>(s);
    ls.reset(new Levelset<D>(*g));
    lv.reset(new LevelsetVelocity<D>(*g));
    random_prev<D>(r, s, *ls);
    s.all([&](int i, int j, int k) {
      for (int a = 0; a < D; ++a) lv->velocity()(i, j, k)[a] = r.uni(-1, 1) * s.dx(a);
    });
    GALS::CPU::Gradient<double, Grid<D>>::compute(lv->velocity(), lv->velocityGradient());
  }
  void step()
  {
    semi_lagrangian<D>(0, 0.7, *lv, *ls);
    s.interior([&](int i, int j, int k) {
      ls->phiPrev()(i, j, k) = ls->phi()(i, j, k);
      ls->psiPrev()(i, j, k) = ls->psi()(i, j, k);
    });
    if (r.coin())
      GALS::CPU::Gradient<double, Grid<D>, GALS::CPU::SecondOrderCentral<double, Grid<D>>>::compute(ls->phiPrev(), ls->psiPrev());
    else
      GALS::CPU::Gradient<double, Grid<D>, GALS::CPU::ThirdOrder<double, Grid<D>>>::compute(ls->phiPrev(), ls->psiPrev());
  }
};
template <int D>
void side_by_side(Rng& r, long c)
{
  uint64_t a = r.u64(), b = r.u64();
  int steps = r.irange(2, 8);
  Sim<D> alone(a);
  for (int n = 0; n < steps; ++n) alone.step();
  Sim<D> x(a);
  Sim<D> y(b);
  Sim<1> z(b);
  for (int n = 0; n < steps; ++n) {
    int order = r.irange(0, 2);
    if (order == 0) y.step(), x.step(), z.step();
    else if (order == 1) x.step(), z.step(), y.step();
    else z.step(), y.step(), y.step(), x.step();
  }
  bool same = first_difference(alone.ls->phi(), x.ls->phi()) < 0 && first_difference(alone.ls->psi(), x.ls->psi()) < 0;
  VF_CHECK(same, "simulations_interfere", "seed " << a << " next to " << b << " " << alone.s.str());
  rep().eval(mix(a) ^ b);
  rep().count("side_by_side");
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("affine1", 400, 4000, [](Rng& r, long c) { affine<1>(r, c); });
  cases("affine2", 300, 3000, [](Rng& r, long c) { affine<2>(r, c); });
  cases("affine3", 150, 1500, [](Rng& r, long c) { affine<3>(r, c); });
  cases("trace1", 400, 4000, [](Rng& r, long c) { trace<1>(r, c); });
  cases("trace2", 300, 3000, [](Rng& r, long c) { trace<2>(r, c); });
  cases("trace3", 200, 2000, [](Rng& r, long c) { trace<3>(r, c); });
  cases("side1", 100, 1000, [](Rng& r, long c) { side_by_side<1>(r, c); });
  cases("side2", 100, 1000, [](Rng& r, long c) { side_by_side<2>(r, c); });
  cases("side3", 60, 600, [](Rng& r, long c) { side_by_side<3>(r, c); });
  return rep().finish();
}
