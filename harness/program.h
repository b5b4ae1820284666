// Random programs over the whole public interface (C20, C21, C22). A program is decided by its seed alone; it returns a
// hash of everything it observed, so that two executions of it can be compared.
#pragma once
#include <unistd.h>
#include "gals/analytical-fields/levelset.h"
#include "gals/analytical-fields/velocity.h"
#include "gals/utilities/file-utils.h"
#include "input_doc.h"
#include "step.h"

namespace vf
{
struct Obs {
  uint64_t h = 0;
  long ops = 0, values = 0;
  std::map<std::string, long> kinds;
  std::function<void()> between;  // called between operations (scheduling noise)
  void add(uint64_t u) { h = mix(h ^ u) + 0x1234567, ++values; }
  void add(double d) { add(hash_double(d)); }
  void add(const V3& v)
  {
    for (int a = 0; a < 3; ++a) add(v[a]);
  }
  void add(const M3& v)
  {
    for (int a = 0; a < 9; ++a) add(v[a]);
  }
  template <int N>
  void add(const GALS::CPU::VecN<double, N>& v)
  {
    for (int a = 0; a < N; ++a) add(v[a]);
  }
  void add(const std::string& s) { add(hash_str(s)); }
  template <class A>
  void field(const A& a)
  {
    add((uint64_t)a.size());
    for (std::size_t q = 0; q < a.size(); ++q) add(a[q]);
  }
};

inline bool& big_worlds()  // now and then a grid of several thousand cells
{
  static bool on = false;
  return on;
}

template <int D>
struct World {
  Spec s;
  GridPtr<D> g;
  std::unique_ptr<Levelset<D>> ls;
  std::unique_ptr<LevelsetVelocity<D>> lv;
  std::unique_ptr<Array<D, V3>> pos;
  GALS::INPUT_FIELDS::Levelset lin;
  GALS::INPUT_FIELDS::Velocity vin;

  static Spec spec(Rng& r)
  {
    bool big = r.coin(0.03) && big_worlds();
    Spec s = random_spec(r, D, 2, 4, big ? 12000 : D == 3 ? 1200 : 400);
    if (big)
      for (int a = D - 1; a >= 0 && s.total() < 4000; --a)
        while (s.n[a] < 300 && s.total() < 4000) s.n[a] += 1 + s.n[a] / 3;
    if (big) random_box(r, s);
    return s;
  }
  World(Rng& r, Obs& o) : s(spec(r))
  {
    g = make_grid<D>(s);
    if (r.coin(0.3)) {  // regenerate with another padding and box before anything is attached to it
      s.pad = r.irange(2, 4);
      random_box(r, s);
      g->setPadding(s.pad);
      g->generate(s.lo[0], s.hi[0], s.lo[1], s.hi[1], s.lo[2], s.hi[2]);
    }
    ls.reset(new Levelset<D>(*g));
    lv.reset(new LevelsetVelocity<D>(*g));
    pos.reset(new Array<D, V3>(*g));
    all(o);  // fields as constructed
    s.all([&](int i, int j, int k) { (*pos)(i, j, k) = (*g)(i, j, k); });
    lin.name = r.coin(0.8) ? "CIRCLE" : rnd_word(r);
    lin.radius = r.uni(0, 1) * (s.hi[0] - s.lo[0]);
    lin.gradient_scheme = "CENTRAL";
    vin.name = D > 1 && r.coin(0.8) ? "CIRCULAR" : "none" + std::to_string(r.irange(0, 9));
    vin.gradient_scheme = r.coin(0.7) ? "ANALYTICAL" : "other";
    for (int a = 0; a < 3; ++a) {
      lin.center[a] = s.active(a) ? r.uni(s.lo[a], s.hi[a]) : 0;
      vin.center.push_back(s.active(a) ? r.uni(s.lo[a], s.hi[a]) : 0);
      vin.vector.push_back(r.uni(-1, 1));
    }
  }
  void all(Obs& o) const
  {
    for (std::size_t q = 0; q < (std::size_t)g->size(); ++q) o.add(pos->operator[](q));
    o.field(ls->phi()), o.field(ls->psi()), o.field(ls->phiMixedDerivatives());
    o.field(ls->phiPrev()), o.field(ls->psiPrev()), o.field(ls->phiMixedDerivativesPrev());
    o.field(ls->phiInterpPrev()), o.field(ls->psiInterpPrev());
    o.field(lv->velocity()), o.field(lv->velocityGradient());
  }
  // the largest time step that keeps every departure point inside the padded grid
  double safe_dt(Rng& r) const
  {
    double worst = 0;
    s.interior([&](int i, int j, int k) {
      for (int a = 0; a < D; ++a) worst = std::max(worst, fabs(lv->velocity()(i, j, k)[a]) / s.dx(a));
    });
    if (worst == 0) return r.uni(0.01, 1);
    return r.uni(0.01, 0.95 * s.pad) / worst;
  }
};

// Hermite interpolation of one point, with the optional limiter
template <int D>
void op(Rng& r, World<D>& w, Obs& o, const std::string& scratch, bool files)
{
  const Spec& s = w.s;
  using H = GALS::INTERPOLATION::Hermite<double, Grid<D>>;
  int kind = r.irange(0, files ? 17 : 13);
  static const char* names[] = {"levelset",  "velocity", "gradient", "vector_gradient", "rotate_fields", "semi_lagrangian", "explicit_euler", "random_fields",
                                "interpolate_points", "interpolate_field", "linear",   "stream",          "copies",        "algebra",
                                "parse", "parse_damaged", "write_read_remove", "directories"};
  ++o.ops;
  o.kinds[names[kind]]++;
  switch (kind) {
    case 0: {
      GALS::ANALYTICAL_FIELDS::Levelset<Grid<D>> f(*w.g, w.lin);
      f.compute(*w.pos, *w.ls);
      o.field(w.ls->phi());
      break;
    }
    case 1: {
      GALS::ANALYTICAL_FIELDS::Velocity<Grid<D>> f(*w.g, w.vin);
      f.compute(*w.pos, r.uni(0, 10), *w.lv);
      o.field(w.lv->velocity()), o.field(w.lv->velocityGradient());
      break;
    }
    case 2:
      if (r.coin())
        GALS::CPU::Gradient<double, Grid<D>, GALS::CPU::SecondOrderCentral<double, Grid<D>>>::compute(w.ls->phi(), w.ls->psi());
      else
        GALS::CPU::Gradient<double, Grid<D>, GALS::CPU::ThirdOrder<double, Grid<D>>>::compute(w.ls->phi(), w.ls->psi());
      o.field(w.ls->psi());
      break;
    case 3:
      if (r.coin())
        GALS::CPU::Gradient<double, Grid<D>, GALS::CPU::SecondOrderCentral<double, Grid<D>>>::compute(w.lv->velocity(), w.lv->velocityGradient());
      else
        GALS::CPU::Gradient<double, Grid<D>, GALS::CPU::ThirdOrder<double, Grid<D>>>::compute(w.lv->velocity(), w.lv->velocityGradient());
      o.field(w.lv->velocityGradient());
      break;
    case 4:
      w.ls->phiPrev() = w.ls->phi();
      w.ls->psiPrev() = w.ls->psi();
      w.ls->phiMixedDerivativesPrev() = w.ls->phiMixedDerivatives();
      o.field(w.ls->phiPrev()), o.field(w.ls->psiPrev());
      break;
    case 5: {
      double dt = w.safe_dt(r);
      if (r.coin(0.15)) dt = 0;
      semi_lagrangian<D>(r.irange(0, 2), dt, *w.lv, *w.ls);
      o.field(w.ls->phi()), o.field(w.ls->psi());
      o.field(w.ls->phiInterpPrev()), o.field(w.ls->psiInterpPrev());
      break;
    }
    case 6: {
      double dt = r.uni(0, 0.1) * w.safe_dt(r);
      explicit_euler<D>(r.irange(0, 2), dt, *w.lv, *w.ls);
      o.field(w.ls->phi());
      break;
    }
    case 7: {
      double amp = pow(10., r.uni(-3, 3));
      random_prev<D>(r, s, *w.ls, amp);
      junk_fields<D>(r, s, *w.ls);
      if (r.coin())
        s.all([&](int i, int j, int k) {
          w.lv->velocity()(i, j, k) = V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
          for (int q = 0; q < 9; ++q) w.lv->velocityGradient()(i, j, k)[q] = r.uni(-1, 1);
        });
      w.all(o);
      break;
    }
    case 8: {
      H h;
      bool limit = r.coin(0.3);
      for (int t = 0; t < 12; ++t) {
        Point p = random_point(r, s);
        for (int a = 0; a < D; ++a) {
          // strictly inside the padded grid, whatever the rounding of the position
          if ((p.b[a] == -s.pad && p.e[a] < 1e-6) || (p.b[a] == s.n[a] + s.pad - 2 && p.e[a] > 1 - 1e-6)) p.e[a] = 0.5;
          p.x[a] = s.coord(a, p.b[a]) + p.e[a] * s.dx(a);
        }
        V3 x(p.x[0], p.x[1], p.x[2]);
        auto f = h.interpolate(*w.g, x, *w.ls, limit);
        o.add(f.phi_interpolated);
        for (int a = 0; a < D; ++a) o.add(f.psi_interpolated[a]);
        V3i b = w.g->baseNodeId(x);
        for (int a = 0; a < D; ++a) o.add((double)b[a]);
        o.add((uint64_t)w.g->index(b[0], b[1], b[2]));
      }
      break;
    }
    case 9: {
      Array<D, V3> x(*w.g);
      s.interior([&](int i, int j, int k) {
        Point p = random_point(r, s);
        for (int a = 0; a < D; ++a) {
          if (p.e[a] < 1e-6 || p.e[a] > 1 - 1e-6) p.e[a] = 0.25;
          p.x[a] = s.coord(a, p.b[a]) + p.e[a] * s.dx(a);
        }
        x(i, j, k) = V3(p.x[0], p.x[1], p.x[2]);
      });
      GALS::CPU::Interpolate<double, Grid<D>, H>::compute(x, *w.ls);
      o.field(w.ls->phiInterpPrev()), o.field(w.ls->psiInterpPrev());
      break;
    }
    case 10: {
      Spec s1 = random_spec(r, 1, 1, 3, 200);
      auto g1 = make_grid<1>(s1);
      Array<1, double> a(*g1), out(*g1);
      Array<1, V3> x(*g1);
      s1.all([&](int i, int, int) { a(i, 0, 0) = r.uni(-1, 1); });
      s1.interior([&](int i, int, int) {
        x(i, 0, 0) = V3(s1.coord(0, r.irange(-s1.pad, s1.n[0] + s1.pad - 2)) + r.uni(0.01, 0.99) * s1.dx(0), 0, 0);
      });
      GALS::CPU::Interpolate<double, Grid<1>, GALS::INTERPOLATION::Linear<double, Grid<1>>>::compute(x, a, out);
      o.field(out);
      break;
    }
    case 11: {
      std::ostringstream t;
      t << w.ls->phi() << w.ls->psi() << w.lv->velocity();
      o.add(t.str());
      break;
    }
    case 12: {
      std::unique_ptr<Levelset<D>> c(new Levelset<D>(*w.ls));
      LevelsetVelocity<D> v(*w.lv);
      Array<D, V3> b(*w.g);
      b = w.ls->psi();
      if (r.coin()) c->phi()(0, 0, 0) = 3;
      o.field(c->phi()), o.field(b), o.field(v.velocityGradient());
      Grid<D> g2(*w.g);
      o.add((uint64_t)g2.size());
      o.add(g2(0, 0, 0)), o.add(g2.dX());
      w.ls->phi() = w.ls->phi();  // self assignment
      o.field(w.ls->phi());
      break;
    }
    case 13: {
      V3 a(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)), b(std::vector<double>{r.uni(1, 2), r.uni(1, 2), r.uni(1, 2)});
      M3 m(1, 2, r.uni(0, 1), 4, 5, 6, r.uni(0, 1), 8, 9);
      o.add(a - b), o.add(a * b), o.add(a / b), o.add(a * 2.0), o.add(a.min()), o.add(a.mag());
      o.add(m.dot(a)), o.add(m - m * 0.5);
      o.add((uint64_t)(a == b) + 2 * (m == m));
      GALS::CPU::VecN<double, 4> n;
      n[r.irange(0, 3)] = 1;
      o.add(n);
      std::ostringstream t;
      t << a << m << n << V3i(1, 2, 3);
      o.add(t.str());
      o.add(V3()), o.add(M3());
      break;
    }
    case 14:
    case 15: {
      InputModel m = random_input(r);
      for (bool& h : m.has) h = r.coin(0.8);
      std::string text = text_of(r, m);
      if (kind == 15 && !text.empty()) {
        int cut = r.irange(1, 4);
        for (int q = 0; q < cut && !text.empty(); ++q) {
          std::size_t at = r.u64() % text.size();
          if (r.coin())
            text.erase(at, r.irange(1, 20));
          else
            text[at] = ":[]{}x9"[r.irange(0, 6)];
        }
      }
      std::string p = scratch + "/in";
      {
        std::ofstream f(p.c_str(), std::ios::binary);
        f << text;
      }
      GALS::INPUT_FIELDS::InputFields f;
      std::string how = "ok";
      try {
        GALS::INPUT_PARSER::InputParser().parse(p, &f);
      } catch (const std::exception&) {
        how = "exception";
      }
      o.add(how);
      o.add(f.m_general->output_directory), o.add((double)f.m_grid->nx), o.add((double)f.m_grid->ny), o.add((double)f.m_grid->nz);
      o.add(f.m_grid->x_min), o.add(f.m_grid->x_max), o.add(f.m_grid->y_min), o.add(f.m_grid->y_max), o.add(f.m_grid->z_min), o.add(f.m_grid->z_max);
      o.add(f.m_time->start), o.add(f.m_time->end), o.add(f.m_time->dt), o.add(f.m_time->constant_dt);
      o.add(f.m_velocity->name), o.add(f.m_velocity->gradient_scheme), o.add(f.m_levelset->name), o.add(f.m_levelset->gradient_scheme);
      o.add(f.m_levelset->radius), o.add(f.m_levelset->center);
      for (double d : f.m_velocity->center) o.add(d);
      for (double d : f.m_velocity->vector) o.add(d);
      break;
    }
    case 16: {
      GALS::UTILITIES::FileUtils fu;
      fu.setRootDirectory(scratch + "/");
      std::string p = fu.getRootDirectory() + "f" + std::to_string(r.irange(0, 2));
      fu.write(p, w.ls->psi());
      o.add((uint64_t)fu.fileExists(p));
      o.add(read_file(p));
      o.add((uint64_t)fu.removeFile(p) + 2 * fu.fileExists(p) + 4 * fu.removeFile(p));
      break;
    }
    default: {
      GALS::UTILITIES::FileUtils fu;
      std::string p = scratch + "/d" + std::to_string(r.irange(0, 2)) + "/e/f";
      o.add((uint64_t)fu.createDirectory(p) + 2 * fu.fileExists(p) + 4 * fu.createDirectory(p));
      o.add((uint64_t)fu.removeDirectory(p) + 2 * fu.fileExists(p));
    }
  }
  if (o.between) o.between();
}

template <int D>
void program(Rng& r, Obs& o, const std::string& scratch, bool files, int n_ops)
{
  World<D> w(r, o);
  for (int q = 0; q < n_ops; ++q) op<D>(r, w, o, scratch, files);
  w.all(o);
}
inline Obs run_program(uint64_t seed, const std::string& scratch, bool files, int max_ops, std::function<void()> between = nullptr)
{
  Rng r(seed);
  Obs o;
  o.between = between;
  int d = r.irange(1, 3), n = r.irange(3, max_ops);
  if (d == 1)
    program<1>(r, o, scratch, files, n);
  else if (d == 2)
    program<2>(r, o, scratch, files, n);
  else
    program<3>(r, o, scratch, files, n);
  return o;
}
}  // namespace vf
