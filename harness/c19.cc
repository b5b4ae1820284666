// C19: algebra of the small vectors and matrices.
#include "gals.h"
#include "gals/utilities/utilities.h"
using namespace vf;
using GALS::CPU::Mat3;
using GALS::CPU::Vec3;
using GALS::CPU::VecN;

static double draw(Rng& r, double*)
{
  switch (r.irange(0, 7)) {
    case 0: return 0.0;
    case 1: return r.irange(-4, 4);
    case 2: return r.uni(-1, 1) * pow(10., r.irange(-100, 100));
    case 3: return -0.0;
    case 4: return r.uni(-1, 1) * 1e-10;
    default: return r.uni(-10, 10);
  }
}
static int draw(Rng& r, int*) { return r.coin(0.3) ? r.irange(-2, 2) : r.irange(-20000, 20000); }
template <class T>
static std::string show(const T* v, int n)
{
  std::ostringstream o;
  o.precision(17);
  for (int i = 0; i < n; ++i) o << (i ? "," : "(") << v[i];
  return o.str() + ")";
}
static bool eq(double a, double b) { return near(a, b, 4e-16 * fabs(b)) || a == b; }
static bool eq(int a, int b) { return a == b; }

// a value close to a (near the tolerance, or far beyond it but close relative to a); false where rounding would decide
static bool other(Rng& r, double a, double d, double& c)
{
  c = fabs(a) < 100 ? a + d : a * (1 + r.irange(-3, 3) * pow(10., -r.irange(2, 15)));
  double gap = fabs(c - a);
  return gap < 0.9e-10 || gap > 1.1e-10;
}
static bool other(Rng&, int a, int d, int& c)
{
  c = a + d;
  return true;
}

// integers whose squares are beyond the range of int, where only the result has to fit
static void large(Rng& r, int n)
{
  for (int q = 0; q < n; ++q) {
    int a[3], b[3];
    int lim = r.coin() ? 1000000000 : 60000;
    for (int i = 0; i < 3; ++i) a[i] = r.irange(-lim, lim), b[i] = r.irange(-lim, lim);
    if (r.coin(0.3)) a[r.irange(0, 2)] = r.coin() ? 2147483647 : -2147483647 - 1;
    const Vec3<int> A(a[0], a[1], a[2]), B(b[0], b[1], b[2]);
    std::string w = "int a=" + show(a, 3) + " b=" + show(b, 3);
    double m2 = 0;
    for (int i = 0; i < 3; ++i) m2 += (double)a[i] * a[i];
    VF_CHECK(near(A.mag(), sqrt(m2), 1e-14 * sqrt(m2)), "vec_mag_large", w << " mag " << Prec{A.mag()} << " expected " << Prec{sqrt(m2)});
    VF_CHECK(A.min() == std::min(a[0], std::min(a[1], a[2])), "vec_min_large", w << " min " << A.min());
    VF_CHECK((A == B) == (a[0] == b[0] && a[1] == b[1] && a[2] == b[2]), "vec_equal_large", w);
    bool fits = true;
    for (int i = 0; i < 3; ++i) fits = fits && std::llabs((long long)a[i] - b[i]) <= 2147483647LL;
    if (fits)
      for (int i = 0; i < 3; ++i) VF_CHECK((A - B)[i] == a[i] - b[i], "vec_minus_large", w << " component " << i << " " << (A - B)[i]);
    for (int i = 0; i < 3; ++i) {
      Vec3<int> C(A);
      C[i] = a[i] ^ 1;
      VF_CHECK(!(A == C) && !(C == A), "vec_equal_large", w << " changed in component " << i);
    }
    rep().count("large_integer_vectors");
  }
}

template <class T>
void vec(Rng& r, const char* type, int n)
{
  for (int q = 0; q < n; ++q) {
    T a[3], b[3], k = draw(r, (T*)0);
    int tie = r.irange(0, 9);
    for (int i = 0; i < 3; ++i) a[i] = draw(r, (T*)0), b[i] = draw(r, (T*)0);
    if (tie == 0) a[1] = a[0];
    if (tie == 1) a[2] = a[0];
    if (tie == 2) a[2] = a[1];
    if (tie == 3) a[1] = a[2] = a[0];
    std::string w = std::string(type) + " a=" + show(a, 3) + " b=" + show(b, 3);
    Vec3<T> A(a[0], a[1], a[2]), B(b[0], b[1], b[2]), Z, V(std::vector<T>(a, a + 3));
    const Vec3<T>& cA = A;
    VF_CHECK(A.size() == 3, "vec_size", w);
    for (int i = 0; i < 3; ++i) {
      VF_CHECK(A[i] == a[i] && cA[i] == a[i] && V[i] == a[i] && Z[i] == 0, "vec_construct", w << " component " << i);
      VF_CHECK(eq((A - B)[i], (T)(a[i] - b[i])), "vec_minus", w << " component " << i << " " << (A - B)[i]);
      VF_CHECK(eq((A * B)[i], (T)(a[i] * b[i])), "vec_times_vec", w << " component " << i << " " << (A * B)[i]);
      VF_CHECK(eq((A * k)[i], (T)(a[i] * k)), "vec_times_scalar", w << " k=" << k << " component " << i << " " << (A * k)[i]);
    }
    if (b[0] != 0 && b[1] != 0 && b[2] != 0) {
      for (int i = 0; i < 3; ++i) VF_CHECK(eq((A / B)[i], (T)(a[i] / b[i])), "vec_divide", w << " component " << i << " " << (A / B)[i]);
      rep().count("divisions");
    }
    VF_CHECK(A.min() == std::min(a[0], std::min(a[1], a[2])), "vec_min", w << " min " << A.min());
    {
      long double m2 = 0;
      bool safe = true;
      for (int i = 0; i < 3; ++i) {
        m2 += (long double)a[i] * a[i];
        if (fabs((double)a[i]) > 1e150) safe = false;
        if (a[i] != 0 && fabs((double)a[i]) < 1e-140) safe = false;  // squares underflow
      }
      double want = (double)sqrtl(m2);
      if (safe) VF_CHECK(near(A.mag(), want, 1e-14 * want), "vec_mag", w << " mag " << Prec{A.mag()} << " expected " << Prec{want});
    }
    // equality: within 1e-10 per component for reals, exact for integers
    Vec3<T> C(A);
    VF_CHECK(C == A && A == C, "vec_equal_copy", w);
    int i = r.irange(0, 2);
    double d = (sizeof(T) == 8) ? (r.coin() ? 3e-11 : 5e-10) * (r.coin() ? 1 : -1) : (r.coin() ? 1 : -1);
    if (other(r, a[i], (T)d, C[i])) {
      bool want = fabs((double)C[i] - (double)a[i]) < 1e-10;
      VF_CHECK((A == C) == want && (C == A) == want, "vec_equal_tolerance", w << " component " << i << " differs by " << d);
      rep().count("near_equalities");
    }
    // assignment and independence
    Vec3<T> D;
    D = A;
    VF_CHECK(D[0] == a[0] && D[1] == a[1] && D[2] == a[2], "vec_assign", w);
    D[i] = (T)(D[i] + 1);
    VF_CHECK(A[i] == a[i], "vec_assign_independent", w);
    T kept[3] = {D[0], D[1], D[2]};
    const Vec3<T>& same = D;
    D = same;  // assignment to itself
    VF_CHECK(D[0] == kept[0] && D[1] == kept[1] && D[2] == kept[2], "vec_self_assign", w);
    A[i] = b[i];
    VF_CHECK(cA[i] == b[i] && cA[(i + 1) % 3] == a[(i + 1) % 3] && cA[(i + 2) % 3] == a[(i + 2) % 3], "vec_write", w);
    std::ostringstream o;
    o << B;
    std::ostringstream e;
    e << b[0] << "\t" << b[1] << "\t" << b[2];
    VF_CHECK(o.str() == e.str(), "vec_print", w << " printed '" << o.str() << "'");
    rep().eval(hash_str(w));
  }
  // lists with other than three values are not silently misread
  for (int q = 0; q < 3; ++q) {
    bool thrown = false;
    try {
      Vec3<T> s(std::vector<T>(q, (T)1));
    } catch (const std::exception&) {
      thrown = true;
    }
    VF_CHECK(thrown, "vec_short_list", type << " list of " << q << " values accepted");
  }
}

template <class T>
void mat(Rng& r, const char* type, int n)
{
  for (int q = 0; q < n; ++q) {
    T a[9], b[9], v[3], k = draw(r, (T*)0);
    for (int i = 0; i < 9; ++i) a[i] = draw(r, (T*)0), b[i] = draw(r, (T*)0);
    for (int i = 0; i < 3; ++i) v[i] = draw(r, (T*)0);
    std::string w = std::string(type) + " a=" + show(a, 9) + " v=" + show(v, 3);
    Mat3<T> A(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]), B(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8]), Z;
    const Mat3<T>& cA = A;
    VF_CHECK(A.size() == 9, "mat_size", w);
    for (int i = 0; i < 9; ++i) {
      VF_CHECK(A[i] == a[i] && cA[i] == a[i] && A(i / 3, i % 3) == a[i] && cA(i / 3, i % 3) == a[i] && Z[i] == 0, "mat_construct", w << " entry " << i);
      VF_CHECK(eq((A - B)[i], (T)(a[i] - b[i])), "mat_minus", w << " entry " << i);
      VF_CHECK(eq((A * k)[i], (T)(a[i] * k)), "mat_times_scalar", w << " k=" << k << " entry " << i);
    }
    Vec3<T> V(v[0], v[1], v[2]);
    const Vec3<T> d = A.dot(V);
    for (int i = 0; i < 3; ++i) {
      long double s = 0, m = 0;
      for (int j = 0; j < 3; ++j) s += (long double)a[j * 3 + i] * v[j], m += fabsl((long double)a[j * 3 + i] * v[j]);
      if (m > 1e300L || (sizeof(T) == 4 && m > 2e9L)) continue;
      VF_CHECK(fabsl((long double)d[i] - s) <= 1e-15L * m + 1e-300L, "mat_dot", w << " component " << i << " got " << d[i] << " expected " << (double)s);
    }
    VF_CHECK(V[0] == v[0] && V[1] == v[1] && V[2] == v[2], "mat_dot_changes_input", w);
    Mat3<T> C(A), D;
    VF_CHECK(C == A, "mat_equal_copy", w);
    int i = r.irange(0, 8);
    double dd = (sizeof(T) == 8) ? (r.coin() ? 3e-11 : 5e-10) * (r.coin() ? 1 : -1) : (r.coin() ? 1 : -1);
    if (other(r, a[i], (T)dd, C[i])) {
      bool want = fabs((double)C[i] - (double)a[i]) < 1e-10;
      VF_CHECK((A == C) == want && (C == A) == want, "mat_equal_tolerance", w << " entry " << i << " differs by " << dd);
    }
    D = A;
    bool same = true;
    for (int z = 0; z < 9; ++z) same = same && D[z] == a[z];
    VF_CHECK(same, "mat_assign", w);
    const Mat3<T>& itself = D;
    D = itself;
    for (int z = 0; z < 9; ++z) VF_CHECK(D[z] == a[z], "mat_self_assign", w);
    D(i / 3, i % 3) = b[i];
    for (int z = 0; z < 9; ++z) VF_CHECK(D[z] == (z == i ? b[z] : a[z]) && A[z] == a[z], "mat_write", w << " entry " << i);
    std::ostringstream o, e;
    o << A;
    for (int z = 0; z < 9; ++z) e << a[z] << "\t";
    VF_CHECK(o.str() == e.str(), "mat_print", w << " printed '" << o.str() << "'");
    rep().eval(hash_str(w));
  }
}

template <class T, int N>
void vecn(Rng& r, const char* type)
{
  VecN<T, N> a, b;
  const VecN<T, N>& ca = a;
  std::string w = VF_STR(type << " VecN of " << N);
  VF_CHECK(a.size() == N, "vecn_size", w << " size " << a.size());
  for (int i = 0; i < N; ++i) VF_CHECK(a[i] == 0, "vecn_zero", w);
  T v[8];
  for (int i = 0; i < N; ++i) v[i] = draw(r, (T*)0), a[i] = v[i];
  for (int i = 0; i < N; ++i) VF_CHECK(a[i] == v[i] && ca[i] == v[i], "vecn_write", w << " entry " << i);
  b = a;
  for (int i = 0; i < N; ++i) {
    VF_CHECK(b[i] == v[i], "vecn_assign", w);
    b[i] = (T)(v[i] + 1);
  }
  const VecN<T, N>& itself = a;
  a = itself;
  VF_CHECK(a.size() == N, "vecn_self_assign", w);
  VecN<T, N> c(a);
  for (int i = 0; i < N; ++i) VF_CHECK(a[i] == v[i] && c[i] == v[i], "vecn_independent", w);
  VF_CHECK(b.size() == N && c.size() == N, "vecn_size_after_copy", w);
  std::ostringstream o, e;
  o << a;
  for (int i = 0; i < N; ++i) e << v[i] << "\t";
  VF_CHECK(o.str() == e.str(), "vecn_print", w << " printed '" << o.str() << "'");
  rep().eval(hash_str(w + e.str()), N > 0);
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("vec3", 160, 1600, [](Rng& r, long c) {
    if (c % 2)
      vec<int>(r, "int", 400), large(r, 60);
    else
      vec<double>(r, "double", 400);
    if (c == 0) rep().sample("400 random double pairs incl. ties, signed zeros, 1e-100..1e100, values 1e-11..5e-10 apart");
  });
  cases("mat3", 160, 1600, [](Rng& r, long c) {
    if (c % 2)
      mat<int>(r, "int", 200);
    else
      mat<double>(r, "double", 200);
  });
  cases("vecn", 400, 4000, [](Rng& r, long) {
    vecn<int, 1>(r, "int");
    vecn<int, 2>(r, "int");
    vecn<int, 3>(r, "int");
    vecn<double, 0>(r, "double");
    vecn<double, 1>(r, "double");
    vecn<double, 2>(r, "double");
    vecn<double, 3>(r, "double");
    vecn<double, 4>(r, "double");
  });
  cases("scalars", 200, 2000, [](Rng& r, long) {
    for (int q = 0; q < 100; ++q) {
      double a = r.uni(-50, 50), d = (r.coin() ? 3e-11 : 5e-10) * (r.coin() ? 1 : -1);
      VF_CHECK(GALS::is_equal(a, a + d) == (fabs(d) < 1e-10) && GALS::is_equal(a + d, a) == (fabs(d) < 1e-10), "is_equal", Prec{a} << " " << d);
      double la = r.uni(-1, 1) * pow(10., r.irange(0, 12)), lb = la * (1 + r.irange(-3, 3) * 1e-13), gap = fabs(la - lb);
      if (gap < 0.9e-10 || gap > 1.1e-10) VF_CHECK(GALS::is_equal(la, lb) == (gap < 1e-10), "is_equal_large", Prec{la} << " " << Prec{lb});
      int li = r.coin() ? r.irange(-1000000000, 1000000000) : 16777216 * (1 << r.irange(0, 5)), lj = li + r.irange(-2, 2);
      VF_CHECK(GALS::is_equal(li, lj) == (li == lj), "is_equal_large_int", li << " " << lj);
      int i = r.irange(-1000, 1000), j = i + r.irange(-1, 1);
      VF_CHECK(GALS::is_equal(i, j) == (i == j), "is_equal_int", i << " " << j);
      VF_CHECK(near(GALS::sqr(a), a * a, 1e-15 * a * a) && near(GALS::cube(a), a * a * a, 1e-14 * fabs(a * a * a)), "powers", Prec{a});
      VF_CHECK(GALS::sqr(i) == i * i && GALS::cube(i) == i * i * i, "int_powers", i);
      rep().eval(hash_double(a));
    }
    VF_CHECK(near(GALS::pi(), acos(-1.0), 1e-15), "pi", Prec{GALS::pi()});
  });
  return rep().finish();
}
