// Shared by all harnesses: seeded cases, the reporter that writes the event/result log, grid specifications
// and independent models of the documented geometry. Nothing here calls into the code under test except through
// its public headers.
#pragma once
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vf
{
inline uint64_t mix(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t u64()
  {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * unit(); }
  int irange(int a, int b) { return a + (int)(u64() % (uint64_t)(b - a + 1)); }  // inclusive
  bool coin(double p = 0.5) { return unit() < p; }
  template <class T>
  const T& pick(const std::vector<T>& v)
  {
    return v[u64() % v.size()];
  }
};

inline uint64_t hash_double(double d)
{
  uint64_t u;
  memcpy(&u, &d, 8);
  return mix(u);
}
inline uint64_t hash_str(const std::string& s)
{
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return mix(h);
}

inline bool same_bits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }

// The log the runner reads: one record per line, tab separated.
struct Report {
  FILE* out = nullptr;
  std::string fp_path;
  std::string tier = "quick", scratch = ".";
  uint64_t seed = 1;
  long only_case = -1;
  long shard = 0, shards = 1;
  long checks = 0;
  long current = -1;
  long evals = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, long> counters;
  std::map<std::string, int> fails_by_key;
  int n_samples = 0;
  long fails = 0;
  bool thorough() const { return tier == "thorough"; }
  static std::string clean(std::string s)
  {
    for (auto& c : s)
      if (c == '\t' || c == '\n' || c == '\r') c = ' ';
    return s;
  }
  void rec(const std::string& s)
  {
    fputs(s.c_str(), out);
    fputc('\n', out);
    fflush(out);
  }
  void fail(const std::string& key, const std::string& msg)
  {
    ++fails;
    if (++fails_by_key[key] <= 3) rec("FAIL\t" + std::to_string(current) + "\t" + clean(key) + "\t" + clean(msg));
  }
  void count(const std::string& c, long n = 1) { counters[c] += n; }
  void sample(const std::string& s)
  {
    if (n_samples < 6) {
      ++n_samples;
      rec("SAMPLE\t" + clean(s));
    }
  }
  // One evaluated case, with the fingerprint that decides whether it is distinct.
  void eval(uint64_t fingerprint, bool nontrivial = true)
  {
    ++evals;
    if (nontrivial) distinct.insert(fingerprint);
  }
  int finish()
  {
    rec("COUNTER\tchecks\t" + std::to_string(checks));
    rec("EVALS\t" + std::to_string(evals));
    rec("DISTINCT\t" + std::to_string(distinct.size()));
    if (!fp_path.empty()) {  // fingerprints, so that the runner can count distinct cases over all shards
      FILE* f = fopen(fp_path.c_str(), "wb");
      if (f) {
        for (uint64_t u : distinct) fwrite(&u, 8, 1, f);
        fclose(f);
      }
    }
    for (auto& c : counters) rec("COUNTER\t" + c.first + "\t" + std::to_string(c.second));
    rec(std::string("DONE\t") + std::to_string(fails));
    fclose(out);
    return fails ? 3 : 0;
  }
};

inline Report& rep()
{
  static Report r;
  return r;
}

inline void init(int argc, char** argv)
{
  Report& r = rep();
  std::string path = "/dev/stdout";
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--out")
      path = v;
    else if (k == "--seed")
      r.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--tier")
      r.tier = v;
    else if (k == "--case")
      r.only_case = atol(v.c_str());
    else if (k == "--shard")
      r.shard = atol(v.c_str());
    else if (k == "--shards")
      r.shards = atol(v.c_str());
    else if (k == "--scratch")
      r.scratch = v;
    else {
      fprintf(stderr, "HARNESS-ERROR unknown option %s\n", k.c_str());
      exit(2);
    }
  }
  if (path != "/dev/stdout") r.fp_path = path + ".fp";
  r.out = fopen(path.c_str(), "w");
  if (!r.out) {
    fprintf(stderr, "HARNESS-ERROR cannot write %s\n", path.c_str());
    exit(2);
  }
}

// Run cases 0..n-1 of a named group; every case has its own generator, so that one can be replayed alone.
inline void cases(const char* group, long n_quick, long n_thorough, const std::function<void(Rng&, long)>& f)
{
  Report& r = rep();
  static long base = 0;
  long n = r.thorough() ? n_thorough : n_quick;
  for (long c = 0; c < n; ++c) {
    long id = base + c;
    if (r.only_case >= 0 ? r.only_case != id : c % r.shards != r.shard) continue;
    r.current = id;
    r.rec("CASE\t" + std::to_string(id) + "\t" + group);
    Rng rng(mix(r.seed * 1000003ULL + 17) ^ mix(hash_str(group) + (uint64_t)c));
    f(rng, c);
  }
  base += 1000000;  // groups keep their case numbers whatever the tier
  r.current = -1;
}

#define VF_STR(expr) (static_cast<std::ostringstream&&>(std::ostringstream() << std::boolalpha << expr)).str()
#define VF_CHECK(cond, key, expr)               \
  do {                                          \
    ++vf::rep().checks;                         \
    if (!(cond)) vf::rep().fail(key, VF_STR(expr)); \
  } while (0)

struct Prec {
  double v;
};
inline std::ostream& operator<<(std::ostream& o, Prec p)
{
  char b[64];
  snprintf(b, sizeof b, "%.17g", p.v);
  return o << b;
}

// |got - want| <= tol, with NaN never close.
inline bool near(double got, double want, double tol) { return fabs(got - want) <= tol; }

// ---------------------------------------------------------------------------------------------- grids
struct Spec {
  int dim = 1;
  int n[3] = {1, 1, 1};
  int pad = 1;
  double lo[3] = {0, 0, 0}, hi[3] = {1, 1, 1};
  bool dyadic = false;
  bool active(int a) const { return a < dim; }
  int padded(int a) const { return active(a) ? pad : 0; }
  double dx(int a) const { return (hi[a] - lo[a]) / n[a]; }
  // position of the centre of cell i along axis a (independent model)
  double coord(int a, int i) const
  {
    if (!active(a)) return 0;
    return (double)((long double)lo[a] + ((long double)i + 0.5L) * ((long double)hi[a] - lo[a]) / n[a]);
  }
  // absolute rounding allowance for a coordinate
  double ctol(int a) const { return 1e-13 * (fabs(lo[a]) + fabs(hi[a]) + (n[a] + 2 * pad) * dx(a)); }
  long total() const
  {
    long t = 1;
    for (int a = 0; a < 3; ++a) t *= n[a] + 2 * padded(a);
    return t;
  }
  std::string str() const
  {
    std::ostringstream o;
    o.precision(17);
    o << "dim=" << dim << " n=(" << n[0] << "," << n[1] << "," << n[2] << ") pad=" << pad << " box=[" << lo[0] << ","
      << hi[0] << "]x[" << lo[1] << "," << hi[1] << "]x[" << lo[2] << "," << hi[2] << "]";
    return o.str();
  }
  uint64_t hash() const { return hash_str(str()); }
  template <class F>
  void all(F f) const
  {
    for (int i = -padded(0); i < n[0] + padded(0); ++i)
      for (int j = -padded(1); j < n[1] + padded(1); ++j)
        for (int k = -padded(2); k < n[2] + padded(2); ++k) f(i, j, k);
  }
  template <class F>
  void interior(F f) const
  {
    for (int i = 0; i < n[0]; ++i)
      for (int j = 0; j < n[1]; ++j)
        for (int k = 0; k < n[2]; ++k) f(i, j, k);
  }
  bool inside(int i, int j, int k) const
  {
    return i >= 0 && i < n[0] && j >= 0 && j < n[1] && k >= 0 && k < n[2];
  }
};

// Boxes a user would give and hostile ones: offset far from the origin, tiny, huge, anisotropic, negative, dyadic.
inline void random_box(Rng& r, Spec& s)
{
  int kind = r.irange(0, 7);
  s.dyadic = false;
  for (int a = 0; a < 3; ++a) {
    double lo, len;
    switch (kind) {
      case 0:
        lo = 0, len = 1;
        break;
      case 1:
        lo = -1, len = 2;
        break;
      case 2:
        lo = r.uni(-3, 3), len = r.uni(0.3, 4);
        break;
      case 3:  // far from the origin
        lo = r.uni(-200, 200), len = r.uni(1, 10);
        break;
      case 4:  // tiny
        lo = r.uni(-1e-3, 1e-3), len = r.uni(1e-4, 1e-3);
        break;
      case 5:  // huge
        lo = r.uni(-1e3, 1e3), len = r.uni(1e3, 1e4);
        break;
      case 6:  // strongly anisotropic
        lo = r.uni(-1, 1), len = pow(10., r.uni(-2, 2));
        break;
      default:  // exactly representable spacings
        lo = r.irange(-8, 8) * 0.25, len = 0;
        break;
    }
    if (kind == 7) {
      double h = ldexp(1.0, r.irange(-5, 2));
      len = h * s.n[a];
      s.dyadic = true;
    }
    s.lo[a] = lo;
    s.hi[a] = lo + len;
  }
  // the unit of length is the user's: the same box in very small or very large units (powers of two: exact scaling)
  if (r.coin(0.12)) {
    double f = ldexp(1.0, r.coin() ? r.irange(-46, -20) : r.irange(10, 36));
    for (int a = 0; a < 3; ++a) s.lo[a] *= f, s.hi[a] *= f;
  }
}

// sizes at which narrow types and blocked loops turn
inline int round_number(Rng& r) { return r.pick(std::vector<int>{64, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513}); }
inline Spec random_spec(Rng& r, int dim, int min_pad, int max_pad, long max_cells, int min_n = 1)
{
  Spec s;
  s.dim = dim;
  for (;;) {
    s.pad = r.irange(min_pad, max_pad);
    if (dim > 1 && r.coin(0.03)) {  // one axis much longer than the others
      s.pad = min_pad;
      for (int a = 0; a < 3; ++a) s.n[a] = a < dim ? r.irange(min_n, min_n + 1) : 1;
      s.n[r.irange(0, dim - 1)] = r.coin(0.4) ? round_number(r) : r.irange(65, 520);
      if (s.total() <= 4 * max_cells) break;
    }
    int style = r.irange(0, 3);
    for (int a = 0; a < 3; ++a) {
      if (a >= dim) {
        s.n[a] = 1;
        continue;
      }
      int top = dim == 1 ? (r.coin(0.1) ? 2000 : 400) : dim == 2 ? 40 : 14;
      switch (style) {
        case 0:
          s.n[a] = r.irange(min_n, min_n + 3);
          break;
        case 1:
          s.n[a] = r.irange(std::max(min_n, 3), 12);
          break;
        case 2:
          s.n[a] = r.irange(min_n, std::max(min_n, top));
          break;
        default:  // one long axis
          s.n[a] = r.coin(0.4) ? r.irange(std::max(min_n, top / 2), top) : r.irange(min_n, min_n + 4);
      }
    }
    if (dim == 1 && r.coin(0.04)) s.n[0] = round_number(r);
    if (s.total() <= max_cells) break;
  }
  random_box(r, s);
  return s;
}

// Polynomial of tensor degree <= deg in coordinates scaled to the box, with exact derivatives.
struct Poly {
  int dim, deg;
  double c[5][5][5];
  double x0[3], L[3];
  static Poly random(Rng& r, const Spec& s, int deg, int total_degree = -1)
  {
    Poly p;
    p.dim = s.dim;
    p.deg = deg;
    for (int a = 0; a < 3; ++a) {
      p.x0[a] = 0.5 * (s.lo[a] + s.hi[a]);
      p.L[a] = s.active(a) ? (s.hi[a] - s.lo[a]) : 1.0;
    }
    double amp = pow(10., r.uni(-2, 2));
    for (int i = 0; i < 5; ++i)
      for (int j = 0; j < 5; ++j)
        for (int k = 0; k < 5; ++k) {
          bool in = i <= deg && j <= (s.dim > 1 ? deg : 0) && k <= (s.dim > 2 ? deg : 0);
          if (total_degree >= 0 && i + j + k > total_degree) in = false;
          p.c[i][j][k] = in ? amp * r.uni(-1, 1) : 0;
        }
    return p;
  }
  static long double pw(long double s, int e, int d)
  {
    if (d > e) return 0;
    long double f = 1;
    for (int t = 0; t < d; ++t) f *= (e - t);
    long double v = 1;
    for (int t = 0; t < e - d; ++t) v *= s;
    return f * v;
  }
  // mixed derivative of orders (dx,dy,dz)
  double eval(const double* x, int dx = 0, int dy = 0, int dz = 0) const
  {
    long double s[3];
    for (int a = 0; a < 3; ++a) s[a] = a < dim ? ((long double)x[a] - x0[a]) / L[a] : 0.0L;
    long double v = 0;
    for (int i = 0; i <= deg; ++i) {
      long double pi = pw(s[0], i, dx);
      if (pi == 0) continue;
      for (int j = 0; j <= (dim > 1 ? deg : 0); ++j) {
        long double pj = pw(s[1], j, dy);
        for (int k = 0; k <= (dim > 2 ? deg : 0); ++k) v += c[i][j][k] * pi * pj * pw(s[2], k, dz);
      }
    }
    for (int t = 0; t < dx; ++t) v /= L[0];
    for (int t = 0; t < dy; ++t) v /= L[1];
    for (int t = 0; t < dz; ++t) v /= L[2];
    return (double)v;
  }
  // sum of |coefficients|, an amplitude for tolerances (scaled coordinates reach `reach`)
  double amp(double reach = 1.0) const
  {
    double a = 0;
    for (int i = 0; i < 5; ++i)
      for (int j = 0; j < 5; ++j)
        for (int k = 0; k < 5; ++k) a += fabs(c[i][j][k]) * pow(std::max(1.0, reach), i + j + k);
    return a;
  }
};
}  // namespace vf
