// C27: the reference advection routines, against the independent model. Built once per copy of the headers
// (src/reference and src/reference/SerialCode).
#include <iostream>
#include <iomanip>
#include <math.h>
#include <stdio.h>
#include <fstream>
#include <sys/time.h>
#include <time.h>
#include <string.h>
#include <vector>
#include <tuple>
#include <unistd.h>
#include "common.h"
#include "ref_model.h"
#include "VariableDefinitions.h"
#include "Hermite.h"
#include "InitializeLevelSet.h"
#include "VortexVelocity.h"
#include "TimeSteppingMethods.h"
#include "Allocation.h"
#include "AdvectionPointCalcs.h"
#include "Constants.h"
using namespace vf;
using refm::ld;
namespace gf = galsfunctions;

static double T_of(Rng& r) { return r.coin() ? 1.0 : r.uni(0.3, 8); }
static bool rk3_of(char* b, bool rk3) { return strcpy(b, rk3 ? "RK3" : "Euler"), rk3; }

static void hermite_case(Rng& r, long c)
{
  double dx = c % 4 ? r.uni(0.01, 1) : pow(10., r.uni(-4, 2)), dy = c % 4 ? r.uni(0.01, 1) : pow(10., r.uni(-4, 2));
  double xo = r.uni(-3, 3), yo = r.uni(-3, 3);
  double f[4], fx[4], fy[4], fxy[4];
  refm::Cell cell;
  double mag = 0;
  for (int q = 0; q < 4; ++q) {
    f[q] = r.uni(-1, 1), fx[q] = r.uni(-1, 1) / dx, fy[q] = r.uni(-1, 1) / dy, fxy[q] = r.uni(-1, 1) / dx / dy;
    int j = q / 2, i = q % 2;
    cell.f[j][i] = f[q], cell.fx[j][i] = fx[q], cell.fy[j][i] = fy[q], cell.fxy[j][i] = fxy[q];
  }
  (void)mag;
  double f0[4], x0[4], y0[4], z0[4];
  memcpy(f0, f, sizeof f), memcpy(x0, fx, sizeof f), memcpy(y0, fy, sizeof f), memcpy(z0, fxy, sizeof f);
  for (int t = 0; t < 12; ++t) {
    double ex = t == 0 ? 0 : t == 1 ? 1 : r.uni(0, 1), ey = t == 0 ? 0 : t == 2 ? 1 : r.uni(0, 1);
    double x = xo + ex * dx, y = yo + ey * dy;
    ld rx = ((ld)x - xo) / dx, ry = ((ld)y - yo) / dy;
    double slack = 1e-12 + 4e-15 * (fabs(xo) / dx + fabs(yo) / dy);
    std::string w = VF_STR("cell (" << Prec{xo} << "," << Prec{yo} << ") size " << Prec{dx} << " x " << Prec{dy} << " at fractions " << ex << "," << ey);
    double v = hp(f, fx, fy, fxy, x, y, xo, yo, dx, dy), e = (double)refm::patch(cell, rx, ry, dx, dy, 0, 0);
    VF_CHECK(near(v, e, 60 * slack), "hermite_value", w << " got " << Prec{v} << " expected " << Prec{e});
    v = hermx(f, fx, fy, fxy, x, y, xo, yo, dx, dy), e = (double)refm::patch(cell, rx, ry, dx, dy, 1, 0);
    VF_CHECK(near(v, e, 200 * slack / dx), "hermite_x_derivative", w << " got " << Prec{v} << " expected " << Prec{e});
    v = hermy(f, fx, fy, fxy, x, y, xo, yo, dx, dy), e = (double)refm::patch(cell, rx, ry, dx, dy, 0, 1);
    VF_CHECK(near(v, e, 200 * slack / dy), "hermite_y_derivative", w << " got " << Prec{v} << " expected " << Prec{e});
    rep().eval(hash_str(w));
  }
  VF_CHECK(!memcmp(f0, f, sizeof f) && !memcmp(x0, fx, sizeof f) && !memcmp(y0, fy, sizeof f) && !memcmp(z0, fxy, sizeof f), "hermite_inputs", "nodal data changed");
  rep().count("cells_interpolated");
}

static void velocity(Rng& r, long)
{
  double T = T_of(r);
  for (int q = 0; q < 40; ++q) {
    double x = r.uni(-2, 2), y = r.uni(-2, 2), t = r.uni(0, 10);
    if (q % 8 == 0) x = r.irange(-2, 2) * 0.5, y = r.irange(-2, 2) * 0.5;
    std::string w = VF_STR("(" << Prec{x} << "," << Prec{y} << ") t " << Prec{t} << " period " << Prec{T});
    double tol = 1e-13 * (1 + t / T);
    struct {
      const char* k;
      double v;
      ld e;
    } L[] = {{"velocity_x", gf::Velx(x, y, t, T), refm::U(x, y, t, T)},       {"velocity_y", gf::Vely(x, y, t, T), refm::V(x, y, t, T)},
             {"velocity_gradient_ux", gf::gradUx(x, y, t, T), refm::Ux(x, y, t, T)}, {"velocity_gradient_uy", gf::gradUy(x, y, t, T), refm::Uy(x, y, t, T)},
             {"velocity_gradient_vx", gf::gradVx(x, y, t, T), refm::Vx(x, y, t, T)}, {"velocity_gradient_vy", gf::gradVy(x, y, t, T), refm::Vy(x, y, t, T)}};
    for (auto& l : L) VF_CHECK(near(l.v, (double)l.e, 10 * tol), l.k, w << " got " << Prec{l.v} << " expected " << Prec{(double)l.e});
    double i[4] = {gf::initialize(x, y), gf::derivxinit(x, y), gf::derivyinit(x, y), gf::derivxyinit(x, y)};
    for (int d = 0; d < 4; ++d) {
      double e = (double)refm::phi0(x, y, d & 1, d >> 1);
      VF_CHECK(near(i[d], e, 1e-13), "initial_field", w << " derivative " << d << " got " << Prec{i[d]} << " expected " << Prec{e});
    }
    rep().eval(hash_str(w));
  }
  rep().count("velocity_points", 40);
}

struct World {
  refm::Settings s;
  gf::vectorarray x, y;
  double dx, dy;
  unsigned nx, ny, t;
  char scheme[64], back[64];
  std::string str;
};
static World world(Rng& r, long c)
{
  World w;
  refm::Settings& s = w.s;
  s.nx = r.irange(3, c % 3 ? 9 : 24), s.ny = r.irange(3, c % 3 ? 9 : 24);
  int box = r.irange(0, 3);
  if (box == 0)
    s.xlim1 = s.ylim1 = 0, s.xlim2 = s.ylim2 = 1;
  else if (box == 1)
    s.xlim1 = -1, s.xlim2 = 1, s.ylim1 = -1, s.ylim2 = 1;
  else
    s.xlim1 = r.uni(-1, 0.6), s.xlim2 = s.xlim1 + r.uni(0.3, 1.5), s.ylim1 = r.uni(-1, 0.6), s.ylim2 = s.ylim1 + r.uni(0.3, 1.5);
  s.T = T_of(r), s.dt = r.coin(0.2) ? r.uni(0.1, 0.6) : r.uni(0.001, 0.1);
  s.rk3 = rk3_of(w.back, r.coin());
  s.super = r.coin();
  strcpy(w.scheme, s.super ? "SuperConsistent" : "Heuns");
  w.t = (unsigned)r.irange(0, s.dt < 0.1 && r.coin(0.4) ? 1000 : 20);  // late steps: the time is a product, not a counter
  w.nx = (unsigned)s.nx, w.ny = (unsigned)s.ny;
  w.dx = (s.xlim2 - s.xlim1) / (s.nx - 1), w.dy = (s.ylim2 - s.ylim1) / (s.ny - 1);
  gf::gridnodes(w.x, w.y, s.xlim1, s.ylim1, w.dx, w.dy, w.nx, w.ny);
  w.str = VF_STR("nodes " << s.nx << "x" << s.ny << " box [" << Prec{s.xlim1} << "," << Prec{s.xlim2} << "]x[" << Prec{s.ylim1} << "," << Prec{s.ylim2} << "] dt " << Prec{s.dt}
                          << " period " << Prec{s.T} << " step " << w.t << " " << w.back << " " << w.scheme);
  bool ok = w.x.size() == w.nx && w.y.size() == w.ny;
  for (int i = 0; ok && i < s.nx; ++i) ok = near(w.x[i], s.xlim1 + i * w.dx, 4e-16 * (fabs(s.xlim1) + fabs(s.xlim2)));
  for (int i = 0; ok && i < s.ny; ++i) ok = near(w.y[i], s.ylim1 + i * w.dy, 4e-16 * (fabs(s.ylim1) + fabs(s.ylim2)));
  VF_CHECK(ok, "grid_nodes", w.str);
  if (!ok) {  // go on with what it should be
    w.x.clear(), w.y.clear();
    for (int i = 0; i < s.nx; ++i) w.x.push_back(s.xlim1 + i * w.dx);
    for (int i = 0; i < s.ny; ++i) w.y.push_back(s.ylim1 + i * w.dy);
  }
  return w;
}
static gf::gridarray field(Rng& r, const World& w, double a)
{
  gf::gridarray g(w.ny, gf::vectorarray(w.nx, 0.0));
  for (auto& row : g)
    for (auto& v : row) v = r.uni(-a, a);
  return g;
}

static void backtrace(Rng& r, long c)
{
  World w = world(r, c);
  const refm::Settings& s = w.s;
  rep().eval(hash_str(w.str));
  if (c == 0) rep().sample(w.str);
  for (int form = 0; form < 2; ++form) {
    gf::gridarray xa = field(r, w, 9), ya = field(r, w, 9), xb = xa, yb = ya;
    unsigned lo = 0, hi = w.nx;
    if (form == 0)
      gf::advection_point(w.x, w.y, xa, ya, w.t, s.dt, s.T, w.back);
    else {
      if (c % 2) lo = (unsigned)r.irange(0, s.nx), hi = (unsigned)r.irange((int)lo, s.nx);
      gf::advection_point_MPI(w.x, w.y, xa, ya, w.t, s.dt, s.T, lo, hi, w.back);
    }
    for (unsigned k = 0; k < w.ny; ++k)
      for (unsigned l = 0; l < w.nx; ++l) {
        std::string at = VF_STR(w.str << (form ? " columns " : " all, ") << lo << ".." << hi << " node row " << k << " column " << l);
        if (l < lo || l >= hi) {
          VF_CHECK(same_bits(xa[k][l], xb[k][l]) && same_bits(ya[k][l], yb[k][l]), "departure_outside_range", at);
          continue;
        }
        refm::Back e = refm::backtrace(w.x[l], w.y[k], (ld)w.t * s.dt, s.dt, s.T, s.rk3);
        VF_CHECK(near(xa[k][l], (double)e.x, 1e-12) && near(ya[k][l], (double)e.y, 1e-12), "departure_point",
                 at << " got (" << Prec{xa[k][l]} << "," << Prec{ya[k][l]} << ") expected (" << Prec{(double)e.x} << "," << Prec{(double)e.y} << ")");
        rep().count("departure_points");
      }
  }
}

static void locate(Rng& r, long c)
{
  World w = world(r, c);
  const refm::Settings& s = w.s;
  double x1 = w.x.front(), x2 = w.x.back(), y1 = w.y.front(), y2 = w.y.back();
  gf::gridarray xa = field(r, w, 1), ya = xa;
  for (auto* g : {&xa, &ya}) {
    bool X = g == &xa;
    double lo = X ? x1 : y1, hi = X ? x2 : y2;
    const gf::vectorarray& n = X ? w.x : w.y;
    for (auto& row : *g)
      for (auto& v : row) {
        switch (r.irange(0, 7)) {
          case 0: v = lo; break;
          case 1: v = hi; break;
          case 2: v = n[r.u64() % n.size()]; break;
          case 3: v = lo - r.uni(0, 2); break;
          case 4: v = hi + r.uni(0, 2); break;
          default: v = r.uni(lo, hi);
        }
      }
  }
  rep().eval(hash_str(w.str));
  for (int form = 0; form < 2; ++form) {
    gf::intgridarray cx(w.ny, gf::intvectorarray(w.nx, 0)), cy = cx, tr = cx;
    unsigned lo = 0, hi = w.nx;
    gf::gridarray xb = xa, yb = ya;
    if (form == 0)
      gf::find_advection_point_location(w.x, w.y, xa, ya, cx, cy, tr, x1, x2, y1, y2);
    else {
      if (c % 2) lo = (unsigned)r.irange(0, s.nx), hi = (unsigned)r.irange((int)lo, s.nx);
      gf::find_advection_point_location_MPI(w.x, w.y, xa, ya, cx, cy, tr, x1, x2, y1, y2, lo, hi);
    }
    VF_CHECK(xa == xb && ya == yb, "location_inputs", w.str);
    for (unsigned k = 0; k < w.ny; ++k)
      for (unsigned l = 0; l < w.nx; ++l) {
        std::string at = VF_STR(w.str << (form ? " columns " : " all, ") << lo << ".." << hi << " node row " << k << " column " << l << " point (" << Prec{xa[k][l]} << ","
                                      << Prec{ya[k][l]} << ") tracker " << tr[k][l] << " cell " << cx[k][l] << "," << cy[k][l]);
        if (l < lo || l >= hi) {
          VF_CHECK(cx[k][l] == 0 && cy[k][l] == 0 && tr[k][l] == 0, "location_outside_range", at);
          continue;
        }
        refm::Where e = refm::locate(w.x, w.y, xa[k][l], ya[k][l], x1, x2, y1, y2);
        VF_CHECK((int)tr[k][l] == e.tracker, "location_kind", at << " expected " << e.tracker);
        VF_CHECK(cx[k][l] + 1 < w.nx && cy[k][l] + 1 < w.ny, "location_range", at);
        if (e.tracker != 4) VF_CHECK((int)cx[k][l] == e.cx && (int)cy[k][l] == e.cy, "location_cell", at << " expected " << e.cx << "," << e.cy);
        rep().count(VF_STR("points_kind_" << e.tracker));
      }
  }
}

static void update(Rng& r, long c)
{
  World w = world(r, c);
  const refm::Settings& s = w.s;
  rep().eval(hash_str(w.str));
  gf::gridarray f = field(r, w, 1), fx = field(r, w, 1 / w.dx), fy = field(r, w, 1 / w.dy), fxy = field(r, w, 1 / w.dx / w.dy);
  refm::State m(s);
  for (unsigned k = 0; k < w.ny; ++k)
    for (unsigned l = 0; l < w.nx; ++l) m.f[k][l] = f[k][l], m.fx[k][l] = fx[k][l], m.fy[k][l] = fy[k][l], m.fxy[k][l] = fxy[k][l];
  gf::gridarray xa(f), ya(f);
  gf::intgridarray cx(w.ny, gf::intvectorarray(w.nx, 0)), cy = cx, tr = cx;
  for (unsigned k = 0; k < w.ny; ++k)
    for (unsigned l = 0; l < w.nx; ++l) {
      if (c % 2) {
        refm::Back b = refm::backtrace(w.x[l], w.y[k], (ld)w.t * s.dt, s.dt, s.T, s.rk3);
        xa[k][l] = (double)b.x, ya[k][l] = (double)b.y;
      } else
        xa[k][l] = r.uni(s.xlim1 - 0.1, s.xlim2 + 0.1), ya[k][l] = r.uni(s.ylim1 - 0.1, s.ylim2 + 0.1);
      refm::Where e = refm::locate(w.x, w.y, xa[k][l], ya[k][l], w.x.front(), w.x.back(), w.y.front(), w.y.back());
      tr[k][l] = (unsigned)e.tracker, cx[k][l] = (unsigned)e.cx, cy[k][l] = (unsigned)e.cy;
    }
  for (int form = 0; form < 2; ++form) {
    gf::gridarray a = f, b = fx, d = fy, e = fxy, m0 = f, m1 = fx, m2 = fy, m3 = fxy;
    unsigned lo = 0, hi = w.nx;
    gf::gridarray xb = xa, yb = ya;
    gf::intgridarray cxb = cx, cyb = cy, trb = tr;
    if (form == 0)
      gf::update_levelset_data(w.x, w.y, xa, ya, cx, cy, tr, w.t, s.dt, a, b, d, e, m0, m1, m2, m3, w.scheme, w.back, s.T);
    else {
      if (r.coin()) lo = (unsigned)r.irange(0, s.nx), hi = (unsigned)r.irange((int)lo, s.nx);
      gf::update_levelset_data_mpi(w.x, w.y, xa, ya, cx, cy, tr, w.t, s.dt, a, b, d, e, m0, m1, m2, m3, w.scheme, w.back, lo, hi, s.T);
    }
    VF_CHECK(m0 == f && m1 == fx && m2 == fy && m3 == fxy && e == fxy && xa == xb && ya == yb && cx == cxb && cy == cyb && tr == trb, "update_inputs", w.str);
    double A = 1 + 2 * s.dt * (1 / w.dx + 1 / w.dy), B = (1 / w.dx + 1 / w.dy) * (1 + 30 * s.dt + 300 * s.dt * s.dt + 2000 * s.dt * s.dt * s.dt) + s.dt / w.dx / w.dy * (1 + 7 * s.dt);
    for (unsigned k = 0; k < w.ny; ++k)
      for (unsigned l = 0; l < w.nx; ++l) {
        std::string at = VF_STR(w.str << (form ? " columns " : " all, ") << lo << ".." << hi << " node row " << k << " column " << l << " kind " << tr[k][l]);
        if (l < lo || l >= hi) {
          VF_CHECK(same_bits(a[k][l], f[k][l]) && same_bits(b[k][l], fx[k][l]) && same_bits(d[k][l], fy[k][l]), "update_outside_range", at);
          continue;
        }
        refm::Where q;
        q.tracker = (int)tr[k][l], q.cx = (int)cx[k][l], q.cy = (int)cy[k][l];
        ld e0, e1, e2;
        // a point traced out of the domain is extrapolated from the cell at the edge: rounding grows with the polynomial
        double far = 1;
        if (q.tracker != 4) {
          double ex = fabs((q.tracker == 3 ? w.x[l] : xa[k][l]) - w.x[q.cx]) / w.dx, ey = fabs((q.tracker == 2 ? w.y[k] : ya[k][l]) - w.y[q.cy]) / w.dy;
          far = pow(1 + ex, 3) * pow(1 + ey, 3);
        }
        m.node((int)k, (int)l, q, xa[k][l], ya[k][l], (ld)w.t * s.dt, e0, e1, e2);
        VF_CHECK(near(a[k][l], (double)e0, 1e-10 * A * far), VF_STR("update_value_kind" << q.tracker), at << " got " << Prec{a[k][l]} << " expected " << Prec{(double)e0});
        VF_CHECK(near(b[k][l], (double)e1, 1e-10 * B * far) && near(d[k][l], (double)e2, 1e-10 * B * far), VF_STR("update_gradient_kind" << q.tracker),
                 at << " got (" << Prec{b[k][l]} << "," << Prec{d[k][l]} << ") expected (" << Prec{(double)e1} << "," << Prec{(double)e2} << ")");
        rep().count(VF_STR("nodes_updated_kind_" << q.tracker));
      }
  }
  // mixed derivatives of arbitrary gradient fields
  refm::G px = m.fx, py = m.fy, pxy = m.fxy;
  refm::mixed(px, py, pxy, w.dx, w.dy);
  for (int form = 0; form < 2; ++form) {
    gf::gridarray b = fx, d = fy, e = fxy;
    unsigned lo = 0, hi = w.nx;
    if (form == 0)
      gf::update_mixed_derivatives(b, d, e, w.nx, w.ny, w.dx, w.dy);
    else {
      if (r.coin()) lo = (unsigned)r.irange(0, s.nx), hi = (unsigned)r.irange((int)lo, s.nx);
      gf::update_mixed_derivatives_mpi(b, d, e, w.nx, w.ny, w.dx, w.dy, lo, hi);
    }
    VF_CHECK(b == fx && d == fy, "mixed_inputs", w.str);
    for (unsigned k = 0; k < w.ny; ++k)
      for (unsigned l = 0; l < w.nx; ++l) {
        bool in = l >= lo && l < hi;
        double want = in ? (double)pxy[k][l] : fxy[k][l];
        VF_CHECK(in ? near(e[k][l], want, 1e-12 / w.dx / w.dy) : same_bits(e[k][l], want), in ? "mixed_derivative" : "mixed_outside_range",
                 w.str << " row " << k << " column " << l << " got " << Prec{e[k][l]} << " expected " << Prec{want});
        rep().count("mixed_derivatives");
      }
  }
}

// The single-node integrators, for any node and root
static void integrators(Rng& r, long c)
{
  double T = T_of(r);
  for (int q = 0; q < 20; ++q) {
    double x = r.uni(-1, 1), y = r.uni(-1, 1), xa = x + r.uni(-0.1, 0.1), ya = y + r.uni(-0.1, 0.1), px = r.uni(-2, 2), py = r.uni(-2, 2), dt = r.coin(0.2) ? r.uni(0.1, 0.6) : r.uni(0.001, 0.1);
    unsigned t = (unsigned)r.irange(0, r.irange(0, 3) ? 50 : 5000);
    ld t0 = (ld)t * dt;
    char back[64];
    bool rk3 = rk3_of(back, q % 2);
    std::string w = VF_STR("node (" << Prec{x} << "," << Prec{y} << ") root (" << Prec{xa} << "," << Prec{ya} << ") psi (" << px << "," << py << ") dt " << dt << " step " << t << " period " << T << " " << back);
    ld J[2][2];
    refm::backtrace_jacobian(x, y, t0, dt, T, rk3, J);
    double gx, gy, tol = 1e-11 * (1 + t0 / T) * pow(1 + 8 * dt, 3) * 10;
    std::tie(gx, gy) = gf::SuperConsistentScheme(x, y, px, py, t, dt, T, back);
    ld ex = J[0][0] * px + J[1][0] * py, ey = J[0][1] * px + J[1][1] * py;
    VF_CHECK(near(gx, (double)ex, tol) && near(gy, (double)ey, tol), "super_consistent", w << " got (" << Prec{gx} << "," << Prec{gy} << ") expected (" << Prec{(double)ex} << "," << Prec{(double)ey} << ")");
    std::tie(gx, gy) = gf::Heuns_internal(x, y, xa, ya, px, py, t, dt, T);
    refm::heun(x, y, xa, ya, px, py, t0, dt, T, ex, ey);
    VF_CHECK(near(gx, (double)ex, tol) && near(gy, (double)ey, tol), "heun", w << " got (" << Prec{gx} << "," << Prec{gy} << ") expected (" << Prec{(double)ex} << "," << Prec{(double)ey} << ")");
    rep().eval(hash_str(w));
  }
  // the backtrace Jacobian really is the derivative of the backtrace: the model itself, by finite differences
  double x = r.uni(0, 1), y = r.uni(0, 1), dt = r.uni(0.01, 0.2);
  bool rk3 = c % 2;
  ld J[2][2], h = 1e-6L;
  refm::backtrace_jacobian(x, y, 0.1L, dt, T, rk3, J);
  refm::Back p = refm::backtrace(x + h, y, 0.1L, dt, T, rk3), m = refm::backtrace(x - h, y, 0.1L, dt, T, rk3);
  if (fabsl((p.x - m.x) / (2 * h) - J[0][0]) > 1e-8L || fabsl((p.y - m.y) / (2 * h) - J[1][0]) > 1e-8L) fprintf(stderr, "HARNESS-ERROR model jacobian\n"), exit(2);
  rep().count("integrator_nodes", 20);
}

static std::string rows(const gf::gridarray& g)
{
  std::string o;
  char b[64];
  for (auto& row : g) {
    for (size_t q = 0; q < row.size(); ++q) snprintf(b, sizeof b, q ? ",%.10f" : "%.10f", row[q]), o += b;
    o += "\n";
  }
  return o + "\n";
}
static std::string slurp(const char* p)
{
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
static void files(Rng& r, long c)
{
  World w = world(r, c);
  const refm::Settings& s = w.s;
  const char* names[] = {"phi.txt", "psix.txt", "psiy.txt", "psixy.txt", "Velocity_x.txt", "Velocity_y.txt"};
  gf::gridarray f, fx, fy, fxy;
  gf::allocate_levelset_matrices(f, fx, fy, fxy, w.x, w.y, w.nx, w.ny);
  gf::gridarray* all[4] = {&f, &fx, &fy, &fxy};
  for (int q = 0; q < 4; ++q) {
    bool shape = all[q]->size() == w.ny;
    for (auto& row : *all[q]) shape = shape && row.size() == w.nx;
    VF_CHECK(shape, "initial_shape", w.str);
    if (!shape) return;
    for (unsigned k = 0; k < w.ny; ++k)
      for (unsigned l = 0; l < w.nx; ++l) {
        double e = (double)refm::phi0(w.x[l], w.y[k], q & 1, q >> 1), v = (*all[q])[k][l];
        VF_CHECK(near(v, e, 1e-13), "initial_grid", w.str << " field " << names[q] << " row " << k << " column " << l << " got " << Prec{v} << " expected " << Prec{e});
      }
  }
  for (auto n : names) remove(n);
  std::string want[6];
  int snaps = r.irange(1, 3);
  for (int q = 0; q < snaps; ++q) {
    double big = r.coin(0.2) ? 1e6 : 1;
    f = field(r, w, big), fx = field(r, w, 1), fy = field(r, w, 1), fxy = field(r, w, 100);
    double time = r.uni(0, 3);
    gf::gridarray u, v;
    gf::allocate_levelset_velocity(u, v, w.nx, w.ny, w.x, w.y, time, s.T);
    bool shape = u.size() == w.ny && v.size() == w.ny && u[0].size() == w.nx && v[0].size() == w.nx;
    VF_CHECK(shape, "velocity_shape", w.str);
    if (!shape) return;
    for (unsigned k = 0; k < w.ny; ++k)
      for (unsigned l = 0; l < w.nx; ++l)
        VF_CHECK(near(u[k][l], (double)refm::U(w.x[l], w.y[k], time, s.T), 1e-12) && near(v[k][l], (double)refm::V(w.x[l], w.y[k], time, s.T), 1e-12), "velocity_grid",
                 w.str << " row " << k << " column " << l);
    gf::fileprint(f, fx, fy, fxy, w.nx, w.ny, w.x, w.y, time, s.T);
    want[0] += rows(f), want[1] += rows(fx), want[2] += rows(fy), want[3] += rows(fxy), want[4] += rows(u), want[5] += rows(v);
  }
  for (int q = 0; q < 6; ++q) {
    std::string got = slurp(names[q]);
    size_t d = 0;
    while (d < got.size() && d < want[q].size() && got[d] == want[q][d]) ++d;
    VF_CHECK(got == want[q], "output_file", w.str << " " << names[q] << " after " << snaps << " snapshots: differs at byte " << d << " of " << want[q].size() << " '" << got.substr(d > 20 ? d - 20 : 0, 60) << "'");
    rep().count("files_compared");
    remove(names[q]);
  }
  rep().eval(hash_str(w.str));
  // contiguous exchange matrices
  unsigned R = (unsigned)r.irange(1, 12), C = (unsigned)r.irange(1, 12);
  double** a = gf::alloc_2d_int(R, C);
  for (unsigned i = 0; i < R; ++i)
    for (unsigned j = 0; j < C; ++j) a[i][j] = i * 100.0 + j;
  bool ok = true;
  for (unsigned q = 0; q < R * C; ++q) ok = ok && (&a[0][0])[q] == (q / C) * 100.0 + q % C;
  VF_CHECK(ok, "exchange_matrix", R << "x" << C << " is not stored row after row");
  free(a[0]), free(a);
}

int main(int argc, char** argv)
{
  init(argc, argv);
  if (chdir(rep().scratch.c_str())) return 2;
  cases("hermite", 600, 20000, hermite_case);
  cases("velocity", 200, 5000, velocity);
  cases("backtrace", 300, 8000, backtrace);
  cases("locate", 300, 8000, locate);
  cases("update", 400, 10000, update);
  cases("integrators", 300, 8000, integrators);
  cases("files", 120, 1500, files);
  return rep().finish();
}
