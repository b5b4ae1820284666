// Prints what the reference programs should have written, in full precision: one line per value of each snapshot.
// Lines: "FIELD <name> <snapshot>" followed by rows; "STEPS n"; "AMBIGUOUS 0|1"; "TRACKER k count".
#include "ref_pre.h"
#include "ref_model.h"
using namespace refm;
static void show(const char* name, int snap, const G& g)
{
  printf("FIELD %s %d\n", name, snap);
  for (auto& r : g) {
    for (size_t q = 0; q < r.size(); ++q) printf(q ? ",%.17g" : "%.17g", (double)r[q]);
    printf("\n");
  }
}
static void all(const State& s, int snap, ld time)
{
  show("phi", snap, s.f), show("psix", snap, s.fx), show("psiy", snap, s.fy), show("psixy", snap, s.fxy);
  G u = s.f, v = s.f;
  for (int k = 0; k < s.s.ny; ++k)
    for (int l = 0; l < s.s.nx; ++l) u[k][l] = U(s.x[l], s.y[k], time, s.s.T), v[k][l] = V(s.x[l], s.y[k], time, s.s.T);
  show("Velocity_x", snap, u), show("Velocity_y", snap, v);
}
int main()
{
  Settings s;
  s.xlim1 = vf_num("xlim1"), s.xlim2 = vf_num("xlim2"), s.ylim1 = vf_num("ylim1"), s.ylim2 = vf_num("ylim2");
  s.nx = (int)vf_num("nx"), s.ny = (int)vf_num("ny"), s.dt = vf_num("dt"), s.Tfinal = vf_num("Tfinal"), s.T = vf_num("T_period");
  char b[64];
  vf_text("psischeme", b), s.super = !strcmp(b, "SuperConsistent");
  vf_text("backtrace_scheme", b), s.rk3 = !strcmp(b, "RK3");
  unsigned n = (unsigned)(s.Tfinal / s.dt), ps = (unsigned)vf_num("printstep");
  if (vf_num("option") != 1) ps = n;
  State m(s), q(s);
  q.noise = 12345;
  double spread[4] = {0, 0, 0, 0};
  int snap = 0;
  all(m, snap++, 0);
  for (unsigned t = 0; t < n; ++t) {
    m.step(t), q.step(t);
    if ((t + 1) % ps == 0) {
      const G* a[4] = {&m.f, &m.fx, &m.fy, &m.fxy};
      const G* b[4] = {&q.f, &q.fx, &q.fy, &q.fxy};
      for (int d = 0; d < 4; ++d) {
        double e = 0;
        for (int k = 0; k < s.ny; ++k)
          for (int l = 0; l < s.nx; ++l) e = std::max(e, fabs((double)((*a[d])[k][l] - (*b[d])[k][l])));
        spread[d] = e;
      }
      printf("SPREAD %d %.3g %.3g %.3g %.3g\n", snap, spread[0], spread[1], spread[2], spread[3]);
      all(m, snap++, (t + 1) * (ld)s.dt);
    }
  }
  printf("STEPS %u\nPRINTSTEP %u\nAMBIGUOUS %d\n", n, ps, (int)m.ambiguous);
  for (int k = 1; k < 5; ++k) printf("TRACKER %d %d\n", k, m.seen[k]);
  return 0;
}
