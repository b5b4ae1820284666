// C20: no memory error, undefined behaviour or leak in any sequence of documented operations. The sanitizers are the
// oracle; the allocator's byte count before and after a program finds leaks.
#define VF_NO_POOL
#include "program.h"
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifdef VF_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static long in_use() { return (long)__sanitizer_get_current_allocated_bytes(); }
#else
static long in_use() { return 0; }
#endif
using namespace vf;

int main(int argc, char** argv)
{
  init(argc, argv);
  // everything allocated once per process (locale data, stream buffers, name tables) is allocated here
  bool slow = getenv("VF_SLOW") != 0;
  big_worlds() = !slow;
  for (uint64_t q = 0; q < 25 && !slow; ++q) run_program(mix(q + 77), rep().scratch, true, 20);
  cases("programs", slow ? 96 : 2500, slow ? 600 : 40000, [&](Rng& r, long c) {
    uint64_t seed = r.u64();
    int ops = c % 10 == 0 ? 60 : 20;
    uint64_t h1, h2;
    long before, after;
    {
      Obs o = run_program(seed, rep().scratch, true, ops);
      h1 = o.h;
      for (auto& k : o.kinds) rep().count("op_" + k.first, k.second);
      rep().count("operations", o.ops);
      rep().eval(o.h, o.ops > 2);
      if (slow) return;
      if (c < 2) rep().sample(VF_STR("program " << seed << ": " << o.ops << " operations, " << o.values << " observed values"));
    }
    before = in_use();
    {
      Obs o = run_program(seed, rep().scratch, true, ops);
      h2 = o.h;
    }
    after = in_use();
    if (after > before) {  // once more: only a growth that repeats is a leak
      before = in_use();
      { run_program(seed, rep().scratch, true, ops); }
      after = in_use();
      rep().count("leak_retries");
    }
    VF_CHECK(after <= before, "leak", "program " << seed << " left " << after - before << " bytes allocated");
    VF_CHECK(h1 == h2, "repeatable", "program " << seed << " gave different results the second time");
  });
  return rep().finish();
}
