// C04: arrays and the fields of level sets and velocities are independent, zero-initialised storage over the grid.
#include "gals.h"
using namespace vf;

static void put(double& d, double v) { d = v; }
static void put(V3& d, double v) { d = V3(v, v + 0.5, v - 0.25); }
static void put(M3& d, double v) { d = M3(v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8); }
template <int N>
static void put(GALS::CPU::VecN<double, N>& d, double v)
{
  for (int q = 0; q < N; ++q) d[q] = v + q * 0.125;
}
static bool is(const double& d, double v) { return same_bits(d, v); }
template <class T>
static bool is(const T& d, double v)
{
  T e;
  put(e, v);
  return bits_equal(d, e);
}
static bool zero(const double& d) { return d == 0; }
static bool zero(const V3& d) { return d[0] == 0 && d[1] == 0 && d[2] == 0; }
static bool zero(const M3& d)
{
  for (int i = 0; i < 9; ++i)
    if (d[i] != 0) return false;
  return true;
}
template <int N>
static bool zero(const GALS::CPU::VecN<double, N>& d)
{
  if (d.size() != N) return false;
  for (int i = 0; i < N; ++i)
    if (d[i] != 0) return false;
  return true;
}

template <int D, class T>
void array(Rng& r, const Spec& s, const char* type, bool has_content)
{
  std::string w = std::string(type) + " " + s.str();
  auto g = make_grid<D>(s);
  Array<D, T> a(*g);
  const Array<D, T>& ca = a;
  const V3i n = a.numCells();
  VF_CHECK((long)a.size() == s.total() && (long)a.size() == (long)g->size() && a.data().size() == a.size(), "size",
           w << " size " << a.size());
  if ((long)a.size() != s.total()) return;
  VF_CHECK(n[0] == s.n[0] && n[1] == s.n[1] && n[2] == s.n[2], "num_cells", w << " numCells " << n);
  VF_CHECK(&a.grid() == g.get(), "grid", w << " grid() is another grid");
  for (std::size_t q = 0; q < a.size(); ++q) VF_CHECK(zero(ca[q]), "initial_zero", w << " element " << q);
  if (!has_content) return;
  // unique value per cell through one accessor, read through all
  int how = r.irange(0, 2);
  long v = 0;
  std::map<std::size_t, long> where;
  s.all([&](int i, int j, int k) {
    ++v;
    if (how == 0)
      put(a(i, j, k), v);
    else if (how == 1)
      put(a(V3i(i, j, k)), v);
    else
      put(a[g->index(i, j, k)], v);
    where[g->index(i, j, k)] = v;
  });
  v = 0;
  s.all([&](int i, int j, int k) {
    ++v;
    std::size_t id = g->index(i, j, k);
    bool ok = is(ca(i, j, k), v) && is(ca(V3i(i, j, k)), v) && is(ca[id], v) && is(a(i, j, k), v) && is(a(V3i(i, j, k)), v) &&
              is(a[id], v) && is(a.data()[id], v);
    VF_CHECK(ok, "read_back", w << " written by " << how << " at (" << i << "," << j << "," << k << ")");
    rep().count("cells_read_back");
  });
  // overwriting with almost the same value, or a value of very small magnitude, is not lost
  {
    Array<D, T> b(*g);
    const Array<D, T>& cb = b;
    double base = r.coin() ? 0 : r.uni(-3, 3);
    auto with = [&](T& d, double v) {
      T e;
      put(e, v);
      d = e;
    };
    s.all([&](int i, int j, int k) { with(b(i, j, k), base); });
    std::vector<double> want(a.size());
    s.all([&](int i, int j, int k) {
      double v = base + pow(10., r.uni(-15, -6)) * (r.coin() ? 1 : -1);
      want[g->index(i, j, k)] = v;
      with(b(i, j, k), v);
    });
    Array<D, T> fresh(*g);
    s.all([&](int i, int j, int k) { with(fresh(i, j, k), base); });
    fresh = b;
    s.all([&](int i, int j, int k) {
      VF_CHECK(is(cb(i, j, k), want[g->index(i, j, k)]), "small_change", w << " at (" << i << "," << j << "," << k << ")");
      VF_CHECK(is(fresh(i, j, k), want[g->index(i, j, k)]), "assign_small_change", w << " at (" << i << "," << j << "," << k << ")");
      rep().count("small_changes");
    });
  }
  // positions come with the indices, junk on inactive axes included
  if (D < 3) VF_CHECK(&a(0, D == 1 ? 99 : 0, -5) == &a(0, 0, 0), "inactive", w);
  // assignment: equal afterwards, independent, on another grid object of the same shape, and to itself
  auto g2 = make_grid<D>(s);
  Array<D, T> b(*g2), sum(*g);
  b = a;
  VF_CHECK(first_difference(a, b) < 0, "assign_equal", w << " first difference at " << first_difference(a, b));
  VF_CHECK(&b.grid() == g2.get(), "assign_keeps_grid", w);
  VF_CHECK(b.numCells()[0] == s.n[0] && (long)b.size() == s.total(), "assign_shape", w);
  Array<D, T> snap(a);  // copy constructed
  VF_CHECK(first_difference(a, snap) < 0 && &snap.grid() == &a.grid(), "copy_equal", w);
  put(b(0, 0, 0), -77);
  put(snap(s.n[0] - 1, s.n[1] - 1, s.n[2] - 1), -78);
  long bad = -1;
  for (auto& e : where)
    if (!is(ca[e.first], e.second)) bad = e.first;
  VF_CHECK(bad < 0, "assign_independent", w << " source changed at " << bad);
  VF_CHECK(is(b(0, 0, 0), -77), "assign_writable", w);
  put(a(0, 0, 0), 1234);
  VF_CHECK(is(b(0, 0, 0), -77), "assign_independent", w << " destination changed with the source");
  Array<D, T> before(a);
  a = a;
  VF_CHECK(first_difference(a, before) < 0, "self_assign", w);
  // a single element that differs is carried over
  for (int t = 0; t < 3; ++t) {
    std::size_t q = (std::size_t)r.irange(0, (int)a.size() - 1);
    Array<D, T> c1(a);
    put(c1[q], -500 - t);
    sum = a;
    sum = c1;
    VF_CHECK(first_difference(sum, c1) < 0, "assign_one_element", w << " element " << q);
  }
  // chained use: assigning again over existing content
  sum = b;
  sum = a;
  VF_CHECK(first_difference(sum, a) < 0, "reassign", w);
  rep().count("assignments", 5);
}

template <int D>
void fields(Rng& r, const Spec& s)
{
  std::string w = s.str();
  auto g = make_grid<D>(s);
  Levelset<D> ls(*g), other(*g);
  LevelsetVelocity<D> lv(*g), lv2(*g);
  const Levelset<D>& cls = ls;
  const LevelsetVelocity<D>& clv = lv;
  VF_CHECK(&ls.grid() == g.get() && &lv.grid() == g.get(), "field_grid", w);
  const int F = 10;
  auto put_all = [&](int f, std::size_t q, double v) {
    switch (f) {
      case 0: put(ls.phi()[q], v); break;
      case 1: put(ls.psi()[q], v); break;
      case 2: put(ls.phiMixedDerivatives()[q], v); break;
      case 3: put(ls.phiPrev()[q], v); break;
      case 4: put(ls.psiPrev()[q], v); break;
      case 5: put(ls.phiMixedDerivativesPrev()[q], v); break;
      case 6: put(ls.phiInterpPrev()[q], v); break;
      case 7: put(ls.psiInterpPrev()[q], v); break;
      case 8: put(lv.velocity()[q], v); break;
      default: put(lv.velocityGradient()[q], v);
    }
  };
  auto holds = [&](int f, std::size_t q, double v, bool constant) -> bool {
    switch (f) {
      case 0: return is(constant ? cls.phi()[q] : ls.phi()[q], v);
      case 1: return is(constant ? cls.psi()[q] : ls.psi()[q], v);
      case 2: return is(constant ? cls.phiMixedDerivatives()[q] : ls.phiMixedDerivatives()[q], v);
      case 3: return is(constant ? cls.phiPrev()[q] : ls.phiPrev()[q], v);
      case 4: return is(constant ? cls.psiPrev()[q] : ls.psiPrev()[q], v);
      case 5: return is(constant ? cls.phiMixedDerivativesPrev()[q] : ls.phiMixedDerivativesPrev()[q], v);
      case 6: return is(constant ? cls.phiInterpPrev()[q] : ls.phiInterpPrev()[q], v);
      case 7: return is(constant ? cls.psiInterpPrev()[q] : ls.psiInterpPrev()[q], v);
      case 8: return is(constant ? clv.velocity()[q] : lv.velocity()[q], v);
      default: return is(constant ? clv.velocityGradient()[q] : lv.velocityGradient()[q], v);
    }
  };
  auto sizes = [&](Levelset<D>& l, LevelsetVelocity<D>& v) {
    std::size_t t = s.total();
    return l.phi().size() == t && l.psi().size() == t && l.phiMixedDerivatives().size() == t && l.phiPrev().size() == t &&
           l.psiPrev().size() == t && l.phiMixedDerivativesPrev().size() == t && l.phiInterpPrev().size() == t &&
           l.psiInterpPrev().size() == t && v.velocity().size() == t && v.velocityGradient().size() == t;
  };
  VF_CHECK(sizes(ls, lv), "field_size", w);
  if (!sizes(ls, lv)) return;
  auto all_zero = [&](Levelset<D>& l, LevelsetVelocity<D>& v) {
    for (long q = 0; q < s.total(); ++q)
      if (!(zero(l.phi()[q]) && zero(l.psi()[q]) && zero(l.phiMixedDerivatives()[q]) && zero(l.phiPrev()[q]) && zero(l.psiPrev()[q]) &&
            zero(l.phiMixedDerivativesPrev()[q]) && zero(l.phiInterpPrev()[q]) && zero(l.psiInterpPrev()[q]) && zero(v.velocity()[q]) &&
            zero(v.velocityGradient()[q])))
        return q;
    return -1L;
  };
  VF_CHECK(all_zero(ls, lv) < 0, "field_initial_zero", w << " element " << all_zero(ls, lv));
  std::vector<int> order(F);
  for (int f = 0; f < F; ++f) order[f] = f;
  for (int f = F - 1; f > 0; --f) std::swap(order[f], order[r.irange(0, f)]);
  for (int f : order)
    for (long q = 0; q < s.total(); ++q) put_all(f, q, 1000. * f + q);
  for (int f = 0; f < F; ++f)
    for (long q = 0; q < s.total(); ++q) {
      VF_CHECK(holds(f, q, 1000. * f + q, false) && holds(f, q, 1000. * f + q, true), "field_independent",
               w << " field " << f << " element " << q << " lost its value");
      rep().count("field_cells");
    }
  VF_CHECK(all_zero(other, lv2) < 0, "objects_independent", w << " another object changed at " << all_zero(other, lv2));
  Levelset<D> copied(ls);
  ls.phi()[0] = -5;
  ls.psiPrev()[0] = V3(1, 1, 1);
  VF_CHECK(is(copied.phi()[0], 0.), "copy_independent", w);
}

int main(int argc, char** argv)
{
  init(argc, argv);
  using GALS::CPU::VecN;
  cases("1d", 40, 400, [](Rng& r, long c) {
    Spec s = random_spec(r, 1, c % 6 ? 1 : 0, 4, 1200);
    rep().eval(s.hash());
    if (!c) rep().sample(s.str());
    array<1, double>(r, s, "double", true);
    array<1, V3>(r, s, "Vec3", true);
    array<1, M3>(r, s, "Mat3", true);
    array<1, VecN<double, 0>>(r, s, "VecN0", false);
    array<1, VecN<double, 2>>(r, s, "VecN2", true);
    fields<1>(r, s);
  });
  cases("2d", 30, 300, [](Rng& r, long c) {
    Spec s = random_spec(r, 2, c % 6 ? 1 : 0, 4, 1500);
    rep().eval(s.hash());
    array<2, double>(r, s, "double", true);
    array<2, V3>(r, s, "Vec3", true);
    array<2, M3>(r, s, "Mat3", true);
    array<2, VecN<double, 1>>(r, s, "VecN1", true);
    array<2, VecN<double, 2>>(r, s, "VecN2", true);
    fields<2>(r, s);
  });
  cases("3d", 30, 300, [](Rng& r, long c) {
    Spec s = random_spec(r, 3, c % 6 ? 1 : 0, 3, 2500);
    rep().eval(s.hash());
    array<3, double>(r, s, "double", true);
    array<3, V3>(r, s, "Vec3", true);
    array<3, M3>(r, s, "Mat3", true);
    array<3, VecN<double, 2>>(r, s, "VecN2", true);
    array<3, VecN<double, 4>>(r, s, "VecN4", true);
    fields<3>(r, s);
  });
  // more elements than 16 bits count
  cases("large", 3, 9, [](Rng& r, long c) {
    Spec s;
    s.dim = 1 + (int)(c % 3), s.pad = r.irange(0, 2);
    if (s.dim == 1) s.n[0] = 66000 + r.irange(0, 4000);
    if (s.dim == 2) s.n[0] = r.irange(257, 290), s.n[1] = r.irange(257, 290);
    if (s.dim == 3) s.n[0] = r.irange(40, 44), s.n[1] = r.irange(40, 44), s.n[2] = r.irange(44, 48);
    random_box(r, s);
    rep().eval(s.hash());
    rep().count("elements_of_large_arrays", s.total());
    if (s.dim == 1) array<1, double>(r, s, "double", true), array<1, V3>(r, s, "Vec3", true);
    if (s.dim == 2) array<2, double>(r, s, "double", true), array<2, V3>(r, s, "Vec3", true);
    if (s.dim == 3) array<3, double>(r, s, "double", true), array<3, V3>(r, s, "Vec3", true);
  });
  return rep().finish();
}
