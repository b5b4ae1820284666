// C22: results depend on nothing but the inputs. The same programs are run under different memory contents; the runner
// compares the recorded hashes, and under valgrind every observed value must be initialised.
#define VF_NO_POOL
#include "program.h"
using namespace vf;

// leave recognisable garbage on the stack below the next calls
static void __attribute__((noinline)) dirty_stack(unsigned char b)
{
  volatile unsigned char a[24000];
  for (unsigned q = 0; q < sizeof a; ++q) a[q] = b;
  __asm__ volatile("" ::"r"(a) : "memory");
}
static void __attribute__((noinline)) dirty_heap(Rng& r, unsigned char b)
{
  std::vector<void*> v;
  for (int q = 0; q < 60; ++q) {
    std::size_t n = (std::size_t)pow(10., r.uni(1, 5));
    void* p = malloc(n);
    memset(p, b, n);
    v.push_back(p);
  }
  for (void* p : v) free(p);
}

// every operation many times over
template <int D>
static long wear(Rng& r)
{
  Obs o;
  Rng q(r.u64());
  Spec s;
  s.dim = D, s.pad = 2;
  for (int a = 0; a < D; ++a) s.n[a] = 3, s.lo[a] = -1, s.hi[a] = 2;
  auto g = make_grid<D>(s);
  Levelset<D> ls(*g);
  LevelsetVelocity<D> lv(*g);
  Array<D, V3> pos(*g);
  random_prev<D>(q, s, ls, 1);
  s.all([&](int i, int j, int k) { pos(i, j, k) = (*g)(i, j, k); });
  GALS::INPUT_FIELDS::Levelset li;
  li.name = "CIRCLE", li.radius = 0.5;
  GALS::INPUT_FIELDS::Velocity vi;
  vi.name = "CIRCULAR", vi.gradient_scheme = "ANALYTICAL", vi.center = {0.1, 0.2, 0.3};
  GALS::ANALYTICAL_FIELDS::Levelset<Grid<D>> fl(*g, li);
  GALS::ANALYTICAL_FIELDS::Velocity<Grid<D>> fv(*g, vi);
  const long rounds = D == 1 ? 6000 : D == 2 ? 5000 : 1500;
  for (long t = 0; t < rounds; ++t) {
    fl.compute(pos, ls);
    if (D > 1) fv.compute(pos, t, lv);
    GALS::CPU::Gradient<double, Grid<D>, GALS::CPU::SecondOrderCentral<double, Grid<D>>>::compute(ls.phi(), ls.psi());
    GALS::CPU::Gradient<double, Grid<D>, GALS::CPU::ThirdOrder<double, Grid<D>>>::compute(ls.phi(), ls.psi());
    semi_lagrangian<D>(0, 1e-3, lv, ls);
    explicit_euler<D>(0, 1e-3, lv, ls);
    for (int e = 0; e < 10; ++e) GALS::CPU::Interpolate<double, Grid<D>, GALS::INTERPOLATION::Hermite<double, Grid<D>>>::compute(pos, ls);
    Grid<D> again(3, 3, 3);
    again.setPadding(2);
    again.generate(-1, 2, -1, 2, -1, 2);
  }
  return rounds * 17;
}

int main(int argc, char** argv)
{
  init(argc, argv);
  const char* f = getenv("VF_FILL");
  int fill = f ? atoi(f) : 0;
  bool slow = getenv("VF_SLOW") != 0;
  big_worlds() = !slow;
  std::vector<std::pair<uint64_t, uint64_t>> early;  // the first programs of this process and what they gave
  cases("programs", slow ? 48 : 1600, slow ? 400 : 16000, [&](Rng& r, long c) {
    uint64_t seed = r.u64();
    dirty_heap(r, (unsigned char)fill);
    dirty_stack((unsigned char)fill);
    Obs o = run_program(seed, rep().scratch, true, slow ? 12 : 20);
    if (o.h == 0x5a5a) rep().count("unlikely");  // a branch on every observed value
    rep().rec(VF_STR("HASH\t" << seed << "\t" << o.h));
    rep().eval(seed);
    rep().count("operations", o.ops);
    rep().count("observed_values", o.values);
    if (c < 2) rep().sample(VF_STR("program " << seed << ": " << o.ops << " operations"));
    if (slow) return;
    if (early.size() < 40) early.push_back(std::make_pair(seed, o.h));
    // after other work in the same process the program still gives the same
    run_program(mix(seed), rep().scratch, true, 6);
    dirty_heap(r, (unsigned char)~fill);
    dirty_stack((unsigned char)~fill);
    Obs p = run_program(seed, rep().scratch, true, 20);
    VF_CHECK(p.h == o.h, "history_dependent", "program " << seed << " gave another result after unrelated work");
  });
  // the same programs at the end of a long life of the process, everything having been called very often
  if (!slow) {
    cases("late", 8, 8, [&](Rng& r, long) {
      if (early.empty())  // a replay
        for (int q = 0; q < 40; ++q) {
          uint64_t seed = r.u64();
          early.push_back(std::make_pair(seed, run_program(seed, rep().scratch, true, 20).h));
        }
      long calls = wear<1>(r) + wear<2>(r) + wear<3>(r);
      rep().count("calls_in_between", calls);
      for (auto& e : early) {
        Obs o = run_program(e.first, rep().scratch, true, 20);
        VF_CHECK(o.h == e.second, "age_dependent", "program " << e.first << " gave another result late in the life of the process");
        rep().eval(mix(e.first));
        rep().count("programs_run_early_and_late");
      }
    });
  }
  return rep().finish();
}
