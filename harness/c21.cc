// C21: independent objects may be used from different threads, and shared objects may be read by several. Programs run
// side by side must compute what they compute alone; ThreadSanitizer watches every access.
#include <sched.h>
#include <sys/stat.h>
#include <unistd.h>
#include <atomic>
#include <thread>
#define VF_NO_POOL
#include "program.h"
using namespace vf;

static std::atomic<long> ticket(0);

template <class G, class L>
void linear_reads(Rng&, const G&, const L&, const Spec&, Obs&)
{
}
inline void linear_reads(Rng& q, const Grid<1>& g, const Levelset<1>& ls, const Spec& s, Obs& o)
{
  GALS::INTERPOLATION::Linear<double, Grid<1>> l;
  for (int m = 0; m < 20; ++m) o.add(l.linearInterpolation(g, V3(s.coord(0, q.irange(-s.pad, s.n[0] + s.pad - 2)) + 0.5 * s.dx(0), 0, 0), ls.phi()));
}

// operations that only read shared objects: one grid, one level set with previous data, one velocity, one input
template <int D>
void shared_reads(Rng& r, long c, int n_threads)
{
  Spec s = random_spec(r, D, 2, 3, 600);
  auto g = make_grid<D>(s);
  Levelset<D> base(*g);
  random_prev<D>(r, s, base);
  junk_fields<D>(r, s, base, true);
  LevelsetVelocity<D> lv(*g);
  s.all([&](int i, int j, int k) { lv.velocity()(i, j, k) = V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)); });
  GALS::INPUT_FIELDS::Levelset lin;
  lin.name = "CIRCLE", lin.radius = 0.3, lin.gradient_scheme = "CENTRAL";
  lin.center = V3(0, 0, 0);
  GALS::INPUT_FIELDS::Velocity vin;
  vin.name = D > 1 ? "CIRCULAR" : "unknown", vin.gradient_scheme = "ANALYTICAL", vin.center = {0.1, 0.2, 0.3};
  GALS::INPUT_FIELDS::Velocity odd = vin;
  odd.name = "NAME_NOBODY_KNOWS";
  GALS::INPUT_FIELDS::Levelset oddl = lin;
  oddl.name = "SHAPE_NOBODY_KNOWS";
  const Levelset<D>& cls = base;
  const LevelsetVelocity<D>& clv = lv;
  const Grid<D>& cg = *g;
  GALS::UTILITIES::FileUtils files;
  files.setRootDirectory(rep().scratch);
  const GALS::UTILITIES::FileUtils& cfiles = files;
  double worst = 1e-9;
  for (int a = 0; a < D; ++a) worst = std::max(worst, 1 / s.dx(a));
  const double dt = 0.9 / worst;
  uint64_t seed = r.u64();
  auto job = [&](int t, Obs& o) {
    Rng q(seed + t % 2);  // half of the threads do the very same thing
    GALS::INTERPOLATION::Hermite<double, Grid<D>> h;
    for (int n = 0; n < 6; ++n) {
      switch (q.irange(0, 7)) {
        case 0:
          for (int m = 0; m < 20; ++m) {
            Point p = random_point(q, s);
            for (int a = 0; a < D; ++a) p.x[a] = s.coord(a, p.b[a]) + 0.5 * s.dx(a);
            auto f = h.interpolate(cg, V3(p.x[0], p.x[1], p.x[2]), cls);
            o.add(f.phi_interpolated), o.add(f.psi_interpolated);
          }
          break;
        case 1: {
          Array<D, V3> grad(cg);
          GALS::CPU::Gradient<double, Grid<D>, GALS::CPU::ThirdOrder<double, Grid<D>>>::compute(cls.phi(), grad);
          o.field(grad);
          break;
        }
        case 2: {
          Array<D, M3> grad(cg);
          GALS::CPU::Gradient<double, Grid<D>, GALS::CPU::SecondOrderCentral<double, Grid<D>>>::compute(clv.velocity(), grad);
          o.field(grad);
          break;
        }
        case 3: {  // own level set, shared grid and velocity
          Levelset<D> mine(cls);
          semi_lagrangian<D>(1, dt, clv, mine);
          explicit_euler<D>(1, dt * 1e-3, clv, mine);
          o.field(mine.phi()), o.field(mine.psi());
          break;
        }
        case 4: {
          Levelset<D> mine(cg);
          LevelsetVelocity<D> mv(cg);
          Array<D, V3> pos(cg);
          s.all([&](int i, int j, int k) { pos(i, j, k) = cg(i, j, k); });
          GALS::ANALYTICAL_FIELDS::Levelset<Grid<D>> fl(cg, q.coin() ? lin : oddl);
          GALS::ANALYTICAL_FIELDS::Velocity<Grid<D>> fv(cg, q.coin() ? vin : odd);
          fl.compute(pos, mine), fv.compute(pos, 0.5, mv);
          o.field(mine.phi()), o.field(mv.velocity());
          break;
        }
        case 5: {  // everything else a shared object answers without being changed
          for (int m = 0; m < 5; ++m) {
            o.add((uint64_t)cg.size()), o.add((uint64_t)cg.totalCells()), o.add((uint64_t)cg.dimension()), o.add((uint64_t)cg.getPadding());
            o.add(cg.dX()), o.add(cg.oneOverDX());
            for (int a = 0; a < 3; ++a) o.add((uint64_t)cg.getMask()[a]), o.add((uint64_t)cg.numCells()[a]), o.add((uint64_t)cls.phi().numCells()[a]);
            Point p = random_point(q, s);
            for (int a = 0; a < D; ++a) p.x[a] = s.coord(a, p.b[a]) + 0.5 * s.dx(a);
            GALS::CPU::Vec3<int> b = cg.baseNodeId(V3(p.x[0], p.x[1], p.x[2]));
            o.add((uint64_t)cg.index(b)), o.add((uint64_t)cg.index(p.b[0], p.b[1], p.b[2]));
            o.add(cls.phi()(b)), o.add(cls.psiPrev()(b)), o.add(cls.phiInterpPrev()(b)), o.add(cls.psiInterpPrev()(b)), o.add(cls.phiMixedDerivativesPrev()(b));
            o.add(clv.velocity()(b)), o.add(clv.velocityGradient()(b)), o.add((uint64_t)cls.psi().size());
            o.add((uint64_t)(&cls.grid() == &cg) + 2 * (&clv.grid() == &cg) + 4 * (&cls.phi().grid() == &cg));
          }
          break;
        }
        case 6: {
          linear_reads(q, cg, cls, s, o);
          o.add(cfiles.getRootDirectory()), o.add((uint64_t)cfiles.fileExists(rep().scratch));
          break;
        }
        default: {
          std::ostringstream t2;
          t2 << cls.phi();
          o.add(t2.str());
          s.all([&](int i, int j, int k) { o.add(cg(i, j, k)); });
        }
      }
      o.ops++;
      if (o.between) o.between();
    }
  };
  std::vector<Obs> alone(n_threads), together(n_threads);
  std::vector<std::thread> ts;
  std::atomic<int> go(0);
  std::vector<uint64_t> order(n_threads * 64, 0);
  std::atomic<long> slot(0);
  for (int t = 0; t < n_threads; ++t)
    ts.emplace_back([&, t] {
      go.fetch_add(1, std::memory_order_relaxed);
      while (go.load(std::memory_order_relaxed) < n_threads) sched_yield();
      Rng noise(seed * 31 + t);
      together[t].between = [&, t] {
        long at = slot.fetch_add(1, std::memory_order_relaxed);
        if (at < (long)order.size()) order[at] = t + 1;
        int z = noise.irange(0, 9);
        if (z < 3) sched_yield();
        if (z == 9) usleep(noise.irange(1, 80));
      };
      job(t, together[t]);
    });
  for (auto& t : ts) t.join();
  for (int t = 0; t < n_threads; ++t) {
    job(t, alone[t]);
    VF_CHECK(alone[t].h == together[t].h, "shared_result", "thread " << t << " of " << n_threads << " reading shared objects, " << s.str());
    rep().count("shared_operations", together[t].ops);
  }
  uint64_t h = 0;
  for (uint64_t u : order) h = mix(h ^ u);
  rep().eval(h ^ seed);
  rep().count(VF_STR("shared_rounds_" << D << "d"));
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("independent", 260, 4000, [](Rng& r, long c) {
    int n = r.irange(2, 8);
    std::vector<uint64_t> seed(n);
    std::vector<Obs> together(n);
    std::vector<std::string> dirs(n);
    bool same = c % 3 == 0;
    for (int t = 0; t < n; ++t) {
      seed[t] = same && t ? seed[0] : r.u64();
      dirs[t] = rep().scratch + "/t" + std::to_string(t);
      mkdir(dirs[t].c_str(), 0700);
    }
    std::vector<int> order(n * 64, 0);
    std::atomic<long> slot(0);
    std::atomic<int> go(0);
    std::vector<std::thread> ts;
    uint64_t ns = r.u64();
    for (int t = 0; t < n; ++t)
      ts.emplace_back([&, t] {
        go.fetch_add(1, std::memory_order_relaxed);
        while (go.load(std::memory_order_relaxed) < n) sched_yield();
        Rng noise(ns + t);
        together[t] = run_program(seed[t], dirs[t], true, 12, [&, t] {
          long at = slot.fetch_add(1, std::memory_order_relaxed);
          if (at < (long)order.size()) order[at] = t + 1;
          int z = noise.irange(0, 9);
          if (z < 3) sched_yield();
          if (z == 9) usleep(noise.irange(1, 100));
        });
      });
    for (auto& t : ts) t.join();
    uint64_t h = ns;
    long switches = 0;
    for (std::size_t q = 0; q < order.size(); ++q) {
      h = mix(h ^ order[q]);
      if (q && order[q] && order[q] != order[q - 1]) ++switches;
    }
    rep().eval(h, switches > 1);  // an interleaving: the order in which the threads' operations ended
    rep().count("thread_switches_seen", switches);
    rep().count(VF_STR("rounds_with_" << n << "_threads"));
    for (int t = 0; t < n; ++t) {
      Obs alone = run_program(seed[t], dirs[t], true, 12);
      rep().count("operations", alone.ops);
      VF_CHECK(alone.h == together[t].h, "result", "program " << seed[t] << " run beside " << n - 1 << " others gave another result");
    }
    if (c < 2) rep().sample(VF_STR(n << " threads, " << switches << " switches between operations"));
  });
  cases("shared1", 100, 1500, [](Rng& r, long c) { shared_reads<1>(r, c, r.irange(2, 8)); });
  cases("shared2", 100, 1500, [](Rng& r, long c) { shared_reads<2>(r, c, r.irange(2, 8)); });
  cases("shared3", 80, 1200, [](Rng& r, long c) { shared_reads<3>(r, c, r.irange(2, 8)); });
  return rep().finish();
}
