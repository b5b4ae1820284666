// The public interface of the code under test, and helpers that build its objects from a vf::Spec.
#pragma once
#include <limits.h>
#include <memory>
#include "common.h"
#include "gals/cpu/gradient.h"
#include "gals/cpu/interpolate.h"
#include "gals/cpu/levelset-velocity.h"
#include "gals/cpu/levelset.h"
#include "gals/cpu/temporal.h"
#include "gals/utilities/array.h"
#include "gals/utilities/grid.h"
#include "gals/utilities/mat3.h"
#include "gals/utilities/vec3.h"
#include "gals/utilities/vec_n.h"

namespace vf
{
template <int D>
using Grid = GALS::CPU::Grid<double, D>;
using V3 = GALS::CPU::Vec3<double>;
using V3i = GALS::CPU::Vec3<int>;
using M3 = GALS::CPU::Mat3<double>;
template <int D, class T>
using Array = GALS::CPU::Array<Grid<D>, T>;
template <int D>
using Levelset = GALS::CPU::Levelset<Grid<D>, double>;
template <int D>
using LevelsetVelocity = GALS::CPU::LevelsetVelocity<Grid<D>, double>;

// Grid objects are built in the place of those destroyed before, so that anything remembered under an object's address
// is found out. Not where object lifetimes are what is watched (VF_NO_POOL).
template <int D>
struct GridPlace {
  static std::vector<void*>& free()
  {
    static thread_local std::vector<void*> f;
    return f;
  }
  void operator()(Grid<D>* g) const
  {
#ifdef VF_NO_POOL
    delete g;
#else
    g->~Grid<D>();
    free().push_back(g);
#endif
  }
};
template <int D>
using GridPtr = std::unique_ptr<Grid<D>, GridPlace<D>>;
template <int D>
GridPtr<D> make_grid(const Spec& s)
{
#ifdef VF_NO_POOL
  GridPtr<D> g(new Grid<D>(s.n[0], s.n[1], s.n[2]));
#else
  auto& f = GridPlace<D>::free();
  void* at = f.empty() ? ::operator new(sizeof(Grid<D>)) : f.back();
  if (!f.empty()) f.pop_back();
  GridPtr<D> g(new (at) Grid<D>(s.n[0], s.n[1], s.n[2]));
#endif
  g->setPadding(s.pad);
  g->generate(s.lo[0], s.hi[0], s.lo[1], s.hi[1], s.lo[2], s.hi[2]);
  return g;
}

inline double qnan() { return std::numeric_limits<double>::quiet_NaN(); }

inline bool bits_equal(double a, double b) { return same_bits(a, b); }
inline bool bits_equal(const V3& a, const V3& b)
{
  for (int i = 0; i < 3; ++i)
    if (!same_bits(a[i], b[i])) return false;
  return true;
}
inline bool bits_equal(const M3& a, const M3& b)
{
  for (int i = 0; i < 9; ++i)
    if (!same_bits(a[i], b[i])) return false;
  return true;
}
template <int N>
bool bits_equal(const GALS::CPU::VecN<double, N>& a, const GALS::CPU::VecN<double, N>& b)
{
  if (a.size() != b.size()) return false;
  for (int i = 0; i < a.size(); ++i)
    if (!same_bits(a[i], b[i])) return false;
  return true;
}
// Snapshot comparison of whole fields: index of the first cell that differs, or -1.
template <class A>
long first_difference(const A& a, const A& b)
{
  if (a.size() != b.size()) return 0;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (!bits_equal(a[i], b[i])) return (long)i;
  return -1;
}

// Move a stored result by next to nothing (interior cells, active components): whoever then writes only what "changed",
// up to some tolerance, is found out by running the operation again.
inline double nudge(Rng& r, double v) { return v + r.uni(-1, 1) * pow(10., r.uni(-16, -10)) * (r.coin() ? 1 : fabs(v)); }
template <int D>
void disturb(Rng& r, const Spec& s, Array<D, double>& a)
{
  s.interior([&](int i, int j, int k) { a(i, j, k) = nudge(r, a(i, j, k)); });
}
template <int D>
void disturb(Rng& r, const Spec& s, Array<D, V3>& a)
{
  s.interior([&](int i, int j, int k) {
    V3& v = a(i, j, k);
    for (int q = 0; q < D; ++q) v[q] = nudge(r, v[q]);
  });
}
template <int D>
void disturb(Rng& r, const Spec& s, Array<D, M3>& a)
{
  s.interior([&](int i, int j, int k) {
    M3& m = a(i, j, k);
    for (int p = 0; p < D; ++p)
      for (int q = 0; q < D; ++q) m(p, q) = nudge(r, m(p, q));
  });
}

// --------------------------------------------------------------- independent model of Hermite interpolation
// Nodal data of one node: phi, its first derivatives and mixed derivatives, as multi-index derivative d[a][b][c].
struct Node {
  double d[2][2][2];
};
template <int D>
Node node_data(const Levelset<D>& ls, int i, int j, int k)
{
  Node n;
  memset(&n, 0, sizeof n);
  n.d[0][0][0] = ls.phiPrev()(i, j, k);
  const V3 psi = ls.psiPrev()(i, j, k);
  n.d[1][0][0] = psi[0];
  if (D > 1) n.d[0][1][0] = psi[1];
  if (D > 2) n.d[0][0][1] = psi[2];
  const auto& m = ls.phiMixedDerivativesPrev()(i, j, k);
  if (D == 2) n.d[1][1][0] = m[0];
  if (D == 3) {
    n.d[1][1][0] = m[0];
    n.d[0][1][1] = m[1];
    n.d[1][0][1] = m[2];
    n.d[1][1][1] = m[3];
  }
  return n;
}
// cubic Hermite basis: node s (0/1), derivative order a (0/1); `prime`: its derivative with respect to eta
inline long double hbasis(int s, int a, long double e, bool prime)
{
  if (a == 0) {
    if (s == 0) return prime ? 6 * e * e - 6 * e : (1 + 2 * e) * (1 - e) * (1 - e);
    return prime ? 6 * e - 6 * e * e : e * e * (3 - 2 * e);
  }
  if (s == 0) return prime ? (1 - e) * (1 - 3 * e) : e * (1 - e) * (1 - e);
  return prime ? 3 * e * e - 2 * e : e * e * (e - 1);
}
struct HermiteValue {
  double phi;
  double psi[3];
  double mag, gmag[3];  // sums of |terms|, for rounding allowances
};
template <int D>
HermiteValue hermite_model(const Spec& s, const Levelset<D>& ls, const int* b, const double* x)
{
  HermiteValue h;
  long double e[3] = {0, 0, 0}, v[4] = {0, 0, 0, 0}, m[4] = {0, 0, 0, 0};
  for (int a = 0; a < D; ++a) e[a] = ((long double)x[a] - s.coord(a, b[a])) / s.dx(a);
  for (int si = 0; si < 2; ++si)
    for (int sj = 0; sj < (D > 1 ? 2 : 1); ++sj)
      for (int sk = 0; sk < (D > 2 ? 2 : 1); ++sk) {
        Node n = node_data<D>(ls, b[0] + si, D > 1 ? b[1] + sj : 0, D > 2 ? b[2] + sk : 0);
        for (int p = 0; p < 2; ++p)
          for (int q = 0; q < (D > 1 ? 2 : 1); ++q)
            for (int r = 0; r < (D > 2 ? 2 : 1); ++r) {
              long double w = n.d[p][q][r];
              if (p) w *= s.dx(0);
              if (q) w *= s.dx(1);
              if (r) w *= s.dx(2);
              for (int t = 0; t < 1 + D; ++t) {
                long double f = w * hbasis(si, p, e[0], t == 1);
                if (D > 1) f *= hbasis(sj, q, e[1], t == 2);
                if (D > 2) f *= hbasis(sk, r, e[2], t == 3);
                if (t) f /= s.dx(t - 1);
                v[t] += f;
                m[t] += t ? fabsl(w) / s.dx(t - 1) : fabsl(w);
              }
            }
      }
  h.phi = (double)v[0];
  h.mag = (double)m[0];
  for (int a = 0; a < 3; ++a) h.psi[a] = a < D ? (double)v[a + 1] : 0, h.gmag[a] = a < D ? (double)m[a + 1] : 0;
  return h;
}

// Fill every cell (ghosts included) of the previous-step fields with unrelated random values.
template <int D>
void random_prev(Rng& r, const Spec& s, Levelset<D>& ls, double amp = 1)
{
  s.all([&](int i, int j, int k) {
    ls.phiPrev()(i, j, k) = amp * r.uni(-1, 1);
    V3 p;
    for (int a = 0; a < D; ++a) p[a] = amp * r.uni(-1, 1) / s.dx(a);
    ls.psiPrev()(i, j, k) = p;
    auto& m = ls.phiMixedDerivativesPrev()(i, j, k);
    if (D == 2) m[0] = amp * r.uni(-1, 1) / (s.dx(0) * s.dx(1));
    if (D == 3) {
      m[0] = amp * r.uni(-1, 1) / (s.dx(0) * s.dx(1));
      m[1] = amp * r.uni(-1, 1) / (s.dx(1) * s.dx(2));
      m[2] = amp * r.uni(-1, 1) / (s.dx(0) * s.dx(2));
      m[3] = amp * r.uni(-1, 1) / (s.dx(0) * s.dx(1) * s.dx(2));
    }
  });
}
// ... or with the values and derivatives of a polynomial.
template <int D>
void poly_prev(const Spec& s, const Poly& p, Levelset<D>& ls)
{
  s.all([&](int i, int j, int k) {
    double x[3] = {s.coord(0, i), s.coord(1, j), s.coord(2, k)};
    ls.phiPrev()(i, j, k) = p.eval(x);
    V3 g;
    for (int a = 0; a < D; ++a) g[a] = p.eval(x, a == 0, a == 1, a == 2);
    ls.psiPrev()(i, j, k) = g;
    auto& m = ls.phiMixedDerivativesPrev()(i, j, k);
    if (D == 2) m[0] = p.eval(x, 1, 1, 0);
    if (D == 3) {
      m[0] = p.eval(x, 1, 1, 0);
      m[1] = p.eval(x, 0, 1, 1);
      m[2] = p.eval(x, 1, 0, 1);
      m[3] = p.eval(x, 1, 1, 1);
    }
  });
}

// A point of the padded grid where interpolation is defined: node index plus fraction; kinds cover nodes, cell
// faces, the outermost layer of ghosts and points a rounding error away from nodes.
struct Point {
  int b[3];     // enclosing node per axis
  double e[3];  // fraction in [0,1)
  double x[3];
  std::string str() const
  {
    std::ostringstream o;
    o.precision(17);
    o << "x=(" << x[0] << "," << x[1] << "," << x[2] << ")";
    return o.str();
  }
};
inline Point random_point(Rng& r, const Spec& s, bool interior_bias = false)
{
  Point p;
  int kind = r.irange(0, 5);
  for (int a = 0; a < 3; ++a) {
    p.b[a] = 0, p.e[a] = 0, p.x[a] = 0;
    if (!s.active(a)) continue;
    int lo = -s.pad, hi = std::max(lo, s.n[a] + s.pad - 2);  // a single cell without ghosts: that cell
    if (interior_bias && s.n[a] > 1 && r.coin(0.7)) lo = 0, hi = s.n[a] - 2;
    p.b[a] = r.irange(lo, hi);
    if (r.coin(0.1)) p.b[a] = lo;
    if (r.coin(0.1)) p.b[a] = hi;
    double e = r.unit();
    if (kind == 0) e = 0.25 * r.irange(0, 3);
    if (kind == 1 && r.coin()) e = pow(10., r.uni(-13, -7.01)), e = r.coin() ? e : 1 - e;
    if (kind == 2 && r.coin()) e = 0.5;
    p.e[a] = e;
    p.x[a] = s.coord(a, p.b[a]) + e * s.dx(a);
  }
  return p;
}
}  // namespace vf
