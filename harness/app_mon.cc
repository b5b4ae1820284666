// C25: online monitor linked into the unmodified advection application. The linker redirects the calls main() makes into
// the library (--wrap) through here; every event is judged against a specification of the run the input file asks for
// (given in environment variables by the driver).
#include <stdlib.h>
#include <unistd.h>
#include "gals.h"
#include "step.h"
using namespace vf;

namespace
{
typedef Grid<2> G2;
double env(const char* k, double d = 0)
{
  const char* v = getenv(k);
  return v ? strtod(v, 0) : d;
}
struct Monitor {
  Spec s;
  double start, end, dt, lc[3], radius, vc[2], coeff;
  bool analytical, on;
  long n_levelset = 0, n_velocity = 0, n_steps = 0, expected_steps = 0;
  std::unique_ptr<Levelset<2>> last;  // the level set after the last event
  std::unique_ptr<G2> g;
  Monitor()
  {
    const char* out = getenv("VF_MON_LOG");
    on = out != 0;
    if (!on) return;
    rep().out = fopen(out, "w");
    rep().current = 0;
    s.dim = 2;
    s.n[0] = (int)env("VF_NX"), s.n[1] = (int)env("VF_NY");
    s.lo[0] = env("VF_XMIN"), s.hi[0] = env("VF_XMAX"), s.lo[1] = env("VF_YMIN"), s.hi[1] = env("VF_YMAX");
    start = env("VF_START"), end = env("VF_END"), dt = env("VF_DT");
    for (int a = 0; a < 3; ++a) lc[a] = env(a == 0 ? "VF_LCX" : a == 1 ? "VF_LCY" : "VF_LCZ");
    radius = env("VF_RADIUS");
    vc[0] = env("VF_VCX"), vc[1] = env("VF_VCY");
    coeff = acos(-1.0) / 3.15;
    analytical = env("VF_ANALYTICAL") != 0;
    expected_steps = (long)env("VF_STEPS");
  }
  void rec_end()
  {
    if (!on) return;
    if (n_levelset || n_velocity || n_steps) {
      VF_CHECK(n_steps == expected_steps, "steps", n_steps << " steps taken, expected " << expected_steps << " from " << Prec{start} << " to " << Prec{end} << " by " << Prec{dt});
      VF_CHECK(n_levelset >= 1, "no_initial_level_set", "the level set was never initialised");
      VF_CHECK(n_velocity >= n_steps, "no_velocity", n_velocity << " velocity evaluations for " << n_steps << " steps");
    }
    rep().count("mon_levelset_events", n_levelset);
    rep().count("mon_velocity_events", n_velocity);
    rep().count("mon_step_events", n_steps);
    rep().finish();
    on = false;
  }
  ~Monitor() { rec_end(); }

  void grid_ok(const G2& gr, const char* where)
  {
    const V3i n = gr.numCells();
    VF_CHECK(n[0] == s.n[0] && n[1] == s.n[1], "grid", where << ": grid has " << n << " cells");
    s.pad = gr.getPadding();
    if (n[0] == s.n[0] && n[1] == s.n[1])
      s.interior([&](int i, int j, int k) {
        for (int a = 0; a < 2; ++a)
          VF_CHECK(near(gr(i, j, k)[a], s.coord(a, a ? j : i), s.ctol(a)), "grid_position", where << ": cell (" << i << "," << j << ") at " << gr(i, j, k));
      });
  }
  void initial(const Array<2, V3>& pos, const Levelset<2>& ls)
  {
    ++n_levelset;
    grid_ok(ls.grid(), "level set");
    VF_CHECK(n_steps == 0, "late_initialisation", "level set initialised after " << n_steps << " steps");
    s.interior([&](int i, int j, int k) {
      double d2 = 0, x[3] = {s.coord(0, i), s.coord(1, j), 0};
      for (int a = 0; a < 3; ++a) d2 += (x[a] - lc[a]) * (x[a] - lc[a]);
      double want = sqrt(d2) - radius;
      VF_CHECK(near(ls.phi()(i, j, k), want, 1e-12 * (sqrt(d2) + radius) + 2 * s.ctol(0) + 2 * s.ctol(1)), "initial_phi",
               "cell (" << i << "," << j << ") " << Prec{ls.phi()(i, j, k)} << " expected " << Prec{want});
      rep().count("initial_cells");
    });
    remember(ls);
  }
  void remember(const Levelset<2>& ls) { last.reset(new Levelset<2>(ls)); }
  void velocity(double time, const LevelsetVelocity<2>& lv)
  {
    ++n_velocity;
    grid_ok(lv.grid(), "velocity");
    if (n_velocity == n_steps + 1) {
      double want = start + n_velocity * dt;
      VF_CHECK(near(time, want, 2e-15 * n_velocity * (1 + fabs(want))), "velocity_time", "velocity of step " << n_velocity << " evaluated at " << Prec{time} << " expected " << Prec{want});
    }
    fields(lv);
  }
  void fields(const LevelsetVelocity<2>& lv)
  {
    s.interior([&](int i, int j, int k) {
      V3 v = lv.velocity()(i, j, k);
      double x[2] = {s.coord(0, i), s.coord(1, j)}, want[2] = {coeff * (vc[1] - x[1]), coeff * (x[0] - vc[0])};
      for (int a = 0; a < 2; ++a)
        VF_CHECK(near(v[a], want[a], 1e-12 * (fabs(x[1 - a]) + fabs(vc[1 - a])) + 3 * s.ctol(1 - a)), "velocity",
                 "cell (" << i << "," << j << ") component " << a << " " << Prec{v[a]} << " expected " << Prec{want[a]});
      if (analytical) {
        M3 m = lv.velocityGradient()(i, j, k);
        for (int a = 0; a < 2; ++a)
          for (int b = 0; b < 2; ++b)
            VF_CHECK(near(m(a, b), a == b ? 0 : a == 0 ? -coeff : coeff, 1e-12), "velocity_gradient", "cell (" << i << "," << j << ") entry (" << a << "," << b << ") " << m(a, b));
      }
    });
  }
  std::unique_ptr<Levelset<2>> before;
  void step_begin(double d, const LevelsetVelocity<2>& lv, const Levelset<2>& ls)
  {
    if (n_steps > 2 * expected_steps + 20) {  // it would not come to an end
      VF_CHECK(false, "steps", n_steps << " steps taken and still going, expected " << expected_steps << " from " << Prec{start} << " to " << Prec{end} << " by " << Prec{dt});
      rep().finish();
      _exit(0);
    }
    VF_CHECK(near(d, dt, 1e-12 * fabs(dt)), "time_step", "step " << n_steps + 1 << " uses dt " << Prec{d} << " expected " << Prec{dt});
    VF_CHECK(n_velocity >= n_steps + 1, "stale_velocity", "step " << n_steps + 1 << " after only " << n_velocity << " velocity evaluations");
    fields(lv);
    // what the step starts from is what the last one (or the initialisation) left, with its third-order gradient
    if (last)
      s.interior([&](int i, int j, int k) {
        std::string at = VF_STR("before step " << n_steps + 1 << " cell (" << i << "," << j << ")");
        VF_CHECK(same_bits(ls.phiPrev()(i, j, k), last->phi()(i, j, k)), "phi_carried_over",
                 at << " phi_prev " << Prec{ls.phiPrev()(i, j, k)} << " but phi was " << Prec{last->phi()(i, j, k)});
        for (int a = 0; a < 2; ++a) {
          auto at2 = [&](int o) { return last->phi()(i + (a == 0) * o, j + (a == 1) * o, k); };
          double want = (2 * at2(1) + 3 * at2(0) - 6 * at2(-1) + at2(-2)) / (6 * s.dx(a));
          double mag = (2 * fabs(at2(1)) + 3 * fabs(at2(0)) + 6 * fabs(at2(-1)) + fabs(at2(-2))) / (6 * s.dx(a));
          VF_CHECK(near(ls.psiPrev()(i, j, k)[a], want, 1e-11 * mag), "psi_prev", at << " axis " << a << " psi_prev " << Prec{ls.psiPrev()(i, j, k)[a]} << " expected " << Prec{want});
        }
      });
    before.reset(new Levelset<2>(ls));
  }
  void step_end(double d, const LevelsetVelocity<2>& lv, const Levelset<2>& ls)
  {
    ++n_steps;
    s.interior([&](int i, int j, int k) {
      int b[3] = {0, 0, 0};
      double x[3] = {0, 0, 0}, extra = 0;
      for (int a = 0; a < 2; ++a) {
        x[a] = s.coord(a, a ? j : i) - d * lv.velocity()(i, j, k)[a];
        double q = floor((x[a] - s.coord(a, 0)) / s.dx(a));
        b[a] = (int)q;
        if (b[a] < -s.pad) b[a] = -s.pad;
        if (b[a] > s.n[a] + s.pad - 2) b[a] = s.n[a] + s.pad - 2;
        extra += 40 * s.ctol(a) / s.dx(a);
      }
      HermiteValue m = hermite_model<2>(s, *before, b, x);
      VF_CHECK(near(ls.phi()(i, j, k), m.phi, (1e-12 + extra) * (m.mag + fabs(m.phi))), "step_phi",
               "step " << n_steps << " cell (" << i << "," << j << ") " << Prec{ls.phi()(i, j, k)} << " expected " << Prec{m.phi});
      rep().count("stepped_cells");
    });
    remember(ls);
  }
};
Monitor mon;
int depth = 0;
void at_exit_hook() { mon.rec_end(); }
struct Reg {
  Reg() { atexit(at_exit_hook); }
} reg;
}  // namespace

#define LSC _ZN4GALS17ANALYTICAL_FIELDS8LevelsetINS_3CPU4GridIdLi2EEEdE7computeERKNS2_5ArrayIS4_NS2_4Vec3IdEEEERNS2_8LevelsetIS4_dEE
#define VEC _ZN4GALS17ANALYTICAL_FIELDS8VelocityINS_3CPU4GridIdLi2EEEdE7computeERKNS2_5ArrayIS4_NS2_4Vec3IdEEEEdRNS2_16LevelsetVelocityIS4_dEE
#define SLC _ZN4GALS16TEMPORAL_SCHEMES15SEMI_LAGRANGIAN5EulerIdNS_3CPU4GridIdLi2EEEE7computeEdRKNS3_16LevelsetVelocityIS5_dEERNS3_8LevelsetIS5_dEE
#define SLO _ZN4GALS16TEMPORAL_SCHEMES15SEMI_LAGRANGIAN5EulerIdNS_3CPU4GridIdLi2EEEEclEdRKNS3_16LevelsetVelocityIS5_dEERNS3_8LevelsetIS5_dEE
#define TMC _ZN4GALS3CPU8TemporalIdNS0_4GridIdLi2EEENS_16TEMPORAL_SCHEMES15SEMI_LAGRANGIAN5EulerIdS3_EEE7computeEdRKNS0_16LevelsetVelocityIS3_dEERNS0_8LevelsetIS3_dEE
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

extern "C" {
__attribute__((weak)) void CAT(__real_, LSC)(void*, const Array<2, V3>&, Levelset<2>&);
__attribute__((weak)) void CAT(__real_, VEC)(void*, const Array<2, V3>&, double, LevelsetVelocity<2>&);
__attribute__((weak)) void CAT(__real_, SLC)(void*, double, const LevelsetVelocity<2>&, Levelset<2>&);
__attribute__((weak)) void CAT(__real_, SLO)(void*, double, const LevelsetVelocity<2>&, Levelset<2>&);
__attribute__((weak)) void CAT(__real_, TMC)(double, const LevelsetVelocity<2>&, Levelset<2>&);

void CAT(__wrap_, LSC)(void* t, const Array<2, V3>& pos, Levelset<2>& ls)
{
  CAT(__real_, LSC)(t, pos, ls);
  if (mon.on) mon.initial(pos, ls);
}
void CAT(__wrap_, VEC)(void* t, const Array<2, V3>& pos, double time, LevelsetVelocity<2>& lv)
{
  CAT(__real_, VEC)(t, pos, time, lv);
  if (mon.on) mon.velocity(time, lv);
}
void CAT(__wrap_, SLC)(void* t, double dt, const LevelsetVelocity<2>& lv, Levelset<2>& ls)
{
  if (mon.on && depth++ == 0) mon.step_begin(dt, lv, ls);
  CAT(__real_, SLC)(t, dt, lv, ls);
  if (mon.on && --depth == 0) mon.step_end(dt, lv, ls);
}
void CAT(__wrap_, SLO)(void* t, double dt, const LevelsetVelocity<2>& lv, Levelset<2>& ls)
{
  if (mon.on && depth++ == 0) mon.step_begin(dt, lv, ls);
  CAT(__real_, SLO)(t, dt, lv, ls);
  if (mon.on && --depth == 0) mon.step_end(dt, lv, ls);
}
void CAT(__wrap_, TMC)(double dt, const LevelsetVelocity<2>& lv, Levelset<2>& ls)
{
  if (mon.on && depth++ == 0) mon.step_begin(dt, lv, ls);
  CAT(__real_, TMC)(dt, lv, ls);
  if (mon.on && --depth == 0) mon.step_end(dt, lv, ls);
}
}
