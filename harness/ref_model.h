// Independent model of the reference advection: written from the method (Hermite interpolation of degree 3 in each
// direction at the backtraced point, chain rule for the gradient, boundary treatment as documented), in long double.
#pragma once
#include <math.h>
#include <stddef.h>
#include <algorithm>
#include <string>
#include <vector>
namespace refm
{
typedef long double ld;
typedef std::vector<std::vector<ld>> G;
struct Settings {
  double xlim1 = 0, xlim2 = 1, ylim1 = 0, ylim2 = 1, dt = 0.01, T = 1, Tfinal = 0.05;
  int nx = 9, ny = 9;
  bool rk3 = true, super = true;
};
static const ld PI = (ld)M_PI;  // the double nearest to pi, as in the code
inline ld amp(ld t, ld T) { return cosl(PI * t / T); }
inline ld U(ld x, ld y, ld t, ld T) { return sinl(PI * x) * sinl(PI * x) * sinl(2 * PI * y) * amp(t, T); }
inline ld V(ld x, ld y, ld t, ld T) { return -sinl(PI * y) * sinl(PI * y) * sinl(2 * PI * x) * amp(t, T); }
inline ld Ux(ld x, ld y, ld t, ld T) { return 2 * PI * sinl(PI * x) * cosl(PI * x) * sinl(2 * PI * y) * amp(t, T); }
inline ld Uy(ld x, ld y, ld t, ld T) { return sinl(PI * x) * sinl(PI * x) * 2 * PI * cosl(2 * PI * y) * amp(t, T); }
inline ld Vx(ld x, ld y, ld t, ld T) { return -sinl(PI * y) * sinl(PI * y) * 2 * PI * cosl(2 * PI * x) * amp(t, T); }
inline ld Vy(ld x, ld y, ld t, ld T) { return -2 * PI * sinl(PI * y) * cosl(PI * y) * sinl(2 * PI * x) * amp(t, T); }
inline ld phi0(ld x, ld y, int ax = 0, int ay = 0)
{
  ld X = x - (ld).5, Y = y - (ld).75, r = .15;
  ld e = expl(-(X * X + Y * Y));
  if (ax && ay) return 4 * X * Y * e;
  if (ax) return -2 * X * e;
  if (ay) return -2 * Y * e;
  return e - expl(-r * r);
}
// cubic Hermite basis: node v, derivative order a carried, d-th derivative with respect to eta
inline ld H(int v, int a, ld e, int d)
{
  if (a == 0) {
    ld s = v ? 1 : -1;  // v=1: 3e^2-2e^3 ; v=0: 1-(...)
    if (d == 0) return v ? e * e * (3 - 2 * e) : (1 - e) * (1 - e) * (1 + 2 * e);
    return s * 6 * e * (1 - e);
  }
  if (v == 0) return d == 0 ? e * (1 - e) * (1 - e) : (1 - e) * (1 - 3 * e);
  return d == 0 ? -e * e * (1 - e) : e * (3 * e - 2);
}
struct Cell {
  ld f[2][2], fx[2][2], fy[2][2], fxy[2][2];  // [y][x]
};
inline ld patch(const Cell& c, ld ex, ld ey, ld dx, ld dy, int ddx, int ddy)
{
  ld s = 0;
  for (int j = 0; j < 2; ++j)
    for (int i = 0; i < 2; ++i) {
      s += c.f[j][i] * H(i, 0, ex, ddx) * H(j, 0, ey, ddy);
      s += c.fx[j][i] * dx * H(i, 1, ex, ddx) * H(j, 0, ey, ddy);
      s += c.fy[j][i] * dy * H(i, 0, ex, ddx) * H(j, 1, ey, ddy);
      s += c.fxy[j][i] * dx * dy * H(i, 1, ex, ddx) * H(j, 1, ey, ddy);
    }
  if (ddx) s /= dx;
  if (ddy) s /= dy;
  return s;
}
struct Back {
  ld x, y;
};
inline Back backtrace(ld x, ld y, ld t0, ld dt, ld T, bool rk3)
{
  ld t1 = t0 + dt;
  ld u = U(x, y, t1, T), v = V(x, y, t1, T);
  Back b = {x - dt * u, y - dt * v};
  if (!rk3) return b;
  ld u1 = U(b.x, b.y, t0, T), v1 = V(b.x, b.y, t0, T);
  Back m = {x - dt / 4 * (u + u1), y - dt / 4 * (v + v1)};
  ld u2 = U(m.x, m.y, t0 + dt / 2, T), v2 = V(m.x, m.y, t0 + dt / 2, T);
  return Back{x - dt * (u + u1 + 4 * u2) / 6, y - dt * (v + v1 + 4 * v2) / 6};
}
// Jacobian of the backtrace map, by propagating tangents (dual numbers): J[a][b] = d root_a / d node_b
inline void backtrace_jacobian(ld x, ld y, ld t0, ld dt, ld T, bool rk3, ld J[2][2])
{
  ld t1 = t0 + dt;
  ld u = U(x, y, t1, T), v = V(x, y, t1, T);
  ld A[2][2] = {{Ux(x, y, t1, T), Uy(x, y, t1, T)}, {Vx(x, y, t1, T), Vy(x, y, t1, T)}};
  ld J1[2][2];
  for (int a = 0; a < 2; ++a)
    for (int b = 0; b < 2; ++b) J1[a][b] = (a == b) - dt * A[a][b];
  if (!rk3) {
    for (int a = 0; a < 2; ++a)
      for (int b = 0; b < 2; ++b) J[a][b] = J1[a][b];
    return;
  }
  ld x1 = x - dt * u, y1 = y - dt * v;
  ld u1 = U(x1, y1, t0, T), v1 = V(x1, y1, t0, T);
  ld B0[2][2] = {{Ux(x1, y1, t0, T), Uy(x1, y1, t0, T)}, {Vx(x1, y1, t0, T), Vy(x1, y1, t0, T)}}, B[2][2];
  for (int a = 0; a < 2; ++a)
    for (int b = 0; b < 2; ++b) B[a][b] = B0[a][0] * J1[0][b] + B0[a][1] * J1[1][b];
  ld x2 = x - dt / 4 * (u + u1), y2 = y - dt / 4 * (v + v1), th = t0 + dt / 2;
  ld J2[2][2];
  for (int a = 0; a < 2; ++a)
    for (int b = 0; b < 2; ++b) J2[a][b] = (a == b) - dt / 4 * (A[a][b] + B[a][b]);
  ld C0[2][2] = {{Ux(x2, y2, th, T), Uy(x2, y2, th, T)}, {Vx(x2, y2, th, T), Vy(x2, y2, th, T)}};
  for (int a = 0; a < 2; ++a)
    for (int b = 0; b < 2; ++b) J[a][b] = (a == b) - dt / 6 * (A[a][b] + B[a][b] + 4 * (C0[a][0] * J2[0][b] + C0[a][1] * J2[1][b]));
}
// -dpsi/dt along the characteristic: gradient of velocity transposed times psi
inline void heun(ld x, ld y, ld xa, ld ya, ld px, ld py, ld t0, ld dt, ld T, ld& ox, ld& oy)
{
  auto rate = [&](ld X, ld Y, ld t, ld a, ld b, ld& ra, ld& rb) {
    ra = Ux(X, Y, t, T) * a + Vx(X, Y, t, T) * b;
    rb = Uy(X, Y, t, T) * a + Vy(X, Y, t, T) * b;
  };
  ld r0x, r0y, r1x, r1y;
  rate(xa, ya, t0, px, py, r0x, r0y);
  rate(x, y, t0 + dt, px - dt * r0x, py - dt * r0y, r1x, r1y);
  ox = px - dt / 2 * (r0x + r1x);
  oy = py - dt / 2 * (r0y + r1y);
}
struct Where {
  int tracker = 0, cx = 0, cy = 0;
  bool ambiguous = false;
};
inline int interval(const std::vector<double>& n, double v)
{
  int k = 0;
  while (k < (int)n.size() && n[k] < v) ++k;
  return k - 1;
}
inline Where locate(const std::vector<double>& x, const std::vector<double>& y, ld pa, ld qa, double x1, double x2, double y1, double y2)
{
  Where w;
  double xa = (double)pa, ya = (double)qa;
  bool xin = xa > x1 && xa < x2, yin = ya > y1 && ya < y2;
  // on an edge of the domain for certain only where the displacement is far below the spacing of doubles there
  auto close = [](ld v, double l) { return v != l && fabsl(v - l) < 1e-9L && fabsl(v - l) > 1e-18L * fabs(l); };
  w.ambiguous = close(pa, x1) || close(pa, x2) || close(qa, y1) || close(qa, y2);
  w.tracker = xin && yin ? 1 : xin ? 2 : yin ? 3 : 4;
  if (w.tracker != 4) {
    w.cx = xin ? interval(x, xa) : xa <= x1 ? 0 : (int)x.size() - 2;
    w.cy = yin ? interval(y, ya) : ya <= y1 ? 0 : (int)y.size() - 2;
  }
  return w;
}
inline void mixed(const G& px, const G& py, G& pxy, ld dx, ld dy)
{
  int ny = (int)px.size(), nx = (int)px[0].size();
  auto X = [&](int k, int l) { return (py[k][l + 1] - py[k][l - 1]) / (2 * dx); };  // d psiy / dx, centred
  auto Y = [&](int k, int l) { return (px[k + 1][l] - px[k - 1][l]) / (2 * dy); };
  for (int k = 0; k < ny; ++k)
    for (int l = 0; l < nx; ++l) {
      bool ky = k == 0 || k == ny - 1, lx = l == 0 || l == nx - 1;
      if (!ky && !lx)
        pxy[k][l] = (X(k, l) + Y(k, l)) / 2;
      else if (ky && !lx)
        pxy[k][l] = X(k, l);
      else if (!ky)
        pxy[k][l] = Y(k, l);
      else {
        int k2 = k ? k - 1 : 1, l2 = l ? l - 1 : 1;  // the neighbours inwards
        ld sx = l ? 1 : -1, sy = k ? 1 : -1;
        ld near_ = sx * (py[k][l] - py[k][l2]) / dx + sy * (px[k][l] - px[k2][l]) / dy;
        ld far_ = sx * (py[k2][l] - py[k2][l2]) / dx + sy * (px[k][l2] - px[k2][l2]) / dy;
        pxy[k][l] = (ld)0.75 * near_ - (ld)0.25 * far_;
      }
    }
}
struct State {
  Settings s;
  std::vector<double> x, y;
  double dx = 0, dy = 0;
  G f, fx, fy, fxy;
  bool ambiguous = false;
  int seen[5] = {0, 0, 0, 0, 0};
  unsigned long noise = 0;  // nonzero: disturb every intermediate result a little, to see how far rounding can carry
  ld shake(ld size)
  {
    if (!noise) return 0;
    noise = noise * 6364136223846793005ul + 1442695040888963407ul;
    return size * ((ld)(noise >> 11) / (ld)(1ul << 52) - 1);
  }
  explicit State(const Settings& q) : s(q)
  {
    dx = (s.xlim2 - s.xlim1) / (s.nx - 1), dy = (s.ylim2 - s.ylim1) / (s.ny - 1);
    for (int i = 0; i < s.nx; ++i) x.push_back(s.xlim1 + dx * i);
    for (int i = 0; i < s.ny; ++i) y.push_back(s.ylim1 + dy * i);
    f = fx = fy = fxy = G(s.ny, std::vector<ld>(s.nx, 0));
    for (int k = 0; k < s.ny; ++k)
      for (int l = 0; l < s.nx; ++l) {
        f[k][l] = phi0(x[l], y[k]), fx[k][l] = phi0(x[l], y[k], 1, 0), fy[k][l] = phi0(x[l], y[k], 0, 1), fxy[k][l] = phi0(x[l], y[k], 1, 1);
      }
  }
  // new values of one node, from fields m (old) and the current values at the node
  void node(int k, int l, const Where& w, ld xa, ld ya, ld t0, ld& nf, ld& nx_, ld& ny_)
  {
    ld T = s.T, dt = s.dt, X = x[l], Yy = y[k], t1 = t0 + dt;
    ld of = f[k][l], ox = fx[k][l], oy = fy[k][l], oxy = fxy[k][l];
    nf = of, nx_ = ox, ny_ = oy;
    Cell c;
    for (int j = 0; j < 2; ++j)
      for (int i = 0; i < 2; ++i)
        c.f[j][i] = f[w.cy + j][w.cx + i], c.fx[j][i] = fx[w.cy + j][w.cx + i], c.fy[j][i] = fy[w.cy + j][w.cx + i], c.fxy[j][i] = fxy[w.cy + j][w.cx + i];
    auto ev = [&](ld px, ld py, int a, int b) { return patch(c, (px - x[w.cx]) / dx, (py - y[w.cy]) / dy, dx, dy, a, b); };
    if (w.tracker == 1) {
      nf = ev(xa, ya, 0, 0);
      ld rx = ev(xa, ya, 1, 0), ry = ev(xa, ya, 0, 1);
      if (s.super) {
        ld J[2][2];
        backtrace_jacobian(X, Yy, t0, dt, T, s.rk3, J);
        nx_ = J[0][0] * rx + J[1][0] * ry;
        ny_ = J[0][1] * rx + J[1][1] * ry;
      } else
        heun(X, Yy, xa, ya, rx, ry, t0, dt, T, nx_, ny_);
    } else if (w.tracker == 2) {
      ld rx = ev(xa, Yy, 1, 0), ry = oy;
      nf = ev(xa, Yy, 0, 0) - dt * V(X, Yy, t0, T) * ry;
      ld k0 = Vx(X, Yy, t0, T) * ry + V(X, Yy, t0, T) * oxy + Ux(X, Yy, t0, T) * ox;
      ld p = rx - dt * k0;
      ld k1 = Vx(X, Yy, t1, T) * ry + V(X, Yy, t1, T) * oxy + Ux(X, Yy, t1, T) * p;
      nx_ = rx - dt / 2 * (k0 + k1);
    } else if (w.tracker == 3) {
      ld rx = ox, ry = ev(X, ya, 0, 1);
      nf = ev(X, ya, 0, 0) - dt * U(X, Yy, t0, T) * rx;
      ld k0 = Uy(X, Yy, t0, T) * rx + U(X, Yy, t0, T) * oxy + Vy(X, Yy, t0, T) * oy;
      ld p = ry - dt * k0;
      ld k1 = Uy(X, Yy, t1, T) * rx + U(X, Yy, t1, T) * oxy + Vy(X, Yy, t1, T) * p;
      ny_ = ry - dt / 2 * (k0 + k1);
    } else if (w.tracker == 4) {
      nf = of - dt * (U(X, Yy, t0, T) * ox + V(X, Yy, t0, T) * oy);
    }
  }
  void step(unsigned t)
  {
    G a = f, b = fx, c = fy;
    ld t0 = (ld)t * s.dt;
    for (int k = 0; k < s.ny; ++k)
      for (int l = 0; l < s.nx; ++l) {
        Back r = backtrace(x[l], y[k], t0, s.dt, s.T, s.rk3);
        Where w = locate(x, y, r.x, r.y, s.xlim1, s.xlim2, s.ylim1, s.ylim2);
        ambiguous = ambiguous || w.ambiguous;
        seen[w.tracker]++;
        r.x += shake(1e-14L * (1 + fabsl(r.x))), r.y += shake(1e-14L * (1 + fabsl(r.y)));
        node(k, l, w, r.x, r.y, t0, a[k][l], b[k][l], c[k][l]);
      }
    f = a, fx = b, fy = c;
    if (noise)
      for (G* g : {&f, &fx, &fy}) {
        ld top = 0;
        for (auto& row : *g)
          for (ld v : row) top = std::max(top, fabsl(v));
        for (auto& row : *g)
          for (ld& v : row) v += shake(1e-14L * top);
      }
    mixed(fx, fy, fxy, dx, dy);
  }
};
}  // namespace refm
