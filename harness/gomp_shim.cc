// A small OpenMP runtime built from pthreads, for the race detector (which cannot see into the compiler's own runtime) and
// for varying schedules: threads of a region start in a random order with random delays. VF_OMP_SEED seeds the delays,
// VF_OMP_LOG gets one line per region. Covers what gcc emits for parallel, for (all schedules), sections-free code,
// critical, atomic, single, barrier and reductions.
#include <limits.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <vector>

namespace
{
struct Loop {
  long next = 0, end = 0, incr = 1, chunk = 1;
  unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1;
  bool up = true;
};
struct Team {
  unsigned n = 1;
  std::mutex m;
  std::condition_variable cv;
  unsigned waiting = 0, phase = 0;
  std::vector<unsigned> singles;  // per construct: already taken
  std::vector<Loop*> loops;
  std::vector<long> iters;
  ~Team()
  {
    for (auto l : loops) delete l;
  }
  void barrier()
  {
    std::unique_lock<std::mutex> l(m);
    unsigned p = phase;
    if (++waiting == n) {
      waiting = 0, ++phase;
      cv.notify_all();
    } else
      cv.wait(l, [&] { return phase != p; });
  }
};
int g_threads = 0;
thread_local Team* t_team = nullptr;
thread_local unsigned t_id = 0, t_single = 0, t_loop = 0;
std::mutex g_critical, g_atomic;
uint64_t g_rng = 0;
unsigned long g_regions = 0;
uint64_t rnd()
{
  if (!g_rng) g_rng = (getenv("VF_OMP_SEED") ? strtoull(getenv("VF_OMP_SEED"), 0, 10) : 1) * 2 + 1;
  g_rng ^= g_rng << 13, g_rng ^= g_rng >> 7, g_rng ^= g_rng << 17;
  return g_rng;
}
struct Start {
  Team* team;
  unsigned id, delay;
  void (*fn)(void*);
  void* data;
};
void* run(void* p)
{
  Start s = *(Start*)p;
  if (s.delay) usleep(s.delay);
  t_team = s.team, t_id = s.id, t_single = t_loop = 0;
  s.fn(s.data);
  return nullptr;
}
int want()
{
  if (g_threads > 0) return g_threads;
  const char* e = getenv("OMP_NUM_THREADS");
  int n = e ? atoi(e) : 0;
  return n > 0 ? n : 4;
}
Loop* loop_at(bool create, const Loop& init)
{
  Team* t = t_team;
  if (!t) {
    static thread_local Team alone;
    alone.n = 1;
    t = t_team = &alone;
  }
  std::lock_guard<std::mutex> l(t->m);
  if (create) ++t_loop;
  while (t->loops.size() < t_loop) t->loops.push_back(new Loop(init));
  return t->loops[t_loop - 1];
}
bool next(long* a, long* b)
{
  Loop* q = loop_at(false, Loop());
  std::lock_guard<std::mutex> l(t_team->m);
  if (q->incr > 0 ? q->next >= q->end : q->next <= q->end) return false;
  *a = q->next;
  long e = q->next + q->chunk * q->incr;
  if (q->incr > 0 ? e > q->end : e < q->end) e = q->end;
  *b = q->next = e;
  return true;
}
bool unext(unsigned long long* a, unsigned long long* b)
{
  Loop* q = loop_at(false, Loop());
  std::lock_guard<std::mutex> l(t_team->m);
  if (q->unext == q->uend) return false;
  *a = q->unext;
  unsigned long long left = q->up ? q->uend - q->unext : q->unext - q->uend, step = q->up ? q->uincr : -q->uincr, w = q->uchunk * step;
  if (w >= left || w / step != q->uchunk) {
    *b = q->unext = q->uend;
    // the end may not be a multiple of the step away: iterate as gcc does, up to the end
  } else
    *b = q->unext = q->up ? q->unext + w : q->unext - w;
  return true;
}
bool start(long s, long e, long i, long c, long* a, long* b)
{
  Loop l;
  l.next = s, l.end = e, l.incr = i, l.chunk = c > 0 ? c : 1;
  loop_at(true, l);
  return next(a, b);
}
bool ustart(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b)
{
  Loop l;
  l.up = up, l.unext = s, l.uend = (up ? s >= e : s <= e) ? s : e, l.uincr = i, l.uchunk = c > 0 ? c : 1;
  loop_at(true, l);
  return unext(a, b);
}
}  // namespace

extern "C" {
void omp_set_num_threads(int n) { g_threads = n > 0 ? n : 1; }
int omp_get_max_threads() { return want(); }
int omp_get_num_threads() { return t_team ? (int)t_team->n : 1; }
int omp_get_thread_num() { return (int)t_id; }
int omp_in_parallel() { return t_team && t_team->n > 1; }
int omp_get_num_procs() { return 8; }
void omp_set_dynamic(int) {}
double omp_get_wtime()
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
{
  unsigned k = t_team && t_team->n > 1 ? 1 : n ? n : (unsigned)want();  // nested regions run on one thread
  Team team;
  team.n = k;
  Team* outer = t_team;
  unsigned oid = t_id, os = t_single, ol = t_loop;
  std::vector<pthread_t> th(k);
  std::vector<Start> st(k);
  bool top = !outer || outer->n == 1;
  for (unsigned q = 0; q < k; ++q) st[q] = Start{&team, q, top && k > 1 && rnd() % 4 == 0 ? (unsigned)(rnd() % 60) : 0, fn, data};
  std::vector<unsigned> order;
  for (unsigned q = 1; q < k; ++q) order.push_back(q);
  if (top)
    for (unsigned q = (unsigned)order.size(); q > 1; --q) std::swap(order[q - 1], order[rnd() % q]);
  for (unsigned q : order)
    if (pthread_create(&th[q], nullptr, run, &st[q])) abort();
  run(&st[0]);
  for (unsigned q : order) pthread_join(th[q], nullptr);
  t_team = outer, t_id = oid, t_single = os, t_loop = ol;
  if (top) {
    ++g_regions;
    static FILE* log = getenv("VF_OMP_LOG") ? fopen(getenv("VF_OMP_LOG"), "w") : nullptr;
    if (log) {
      fprintf(log, "REGION\t%lu\t%u\t", g_regions, k);
      for (unsigned q : order) fprintf(log, "%u%s ", q, st[q].delay ? "+" : "");
      fprintf(log, "\n");
      fflush(log);
    }
  }
}
void GOMP_barrier()
{
  if (t_team) t_team->barrier();
}
void GOMP_critical_start() { g_critical.lock(); }
void GOMP_critical_end() { g_critical.unlock(); }
void GOMP_critical_name_start(void**) { g_critical.lock(); }
void GOMP_critical_name_end(void**) { g_critical.unlock(); }
void GOMP_atomic_start() { g_atomic.lock(); }
void GOMP_atomic_end() { g_atomic.unlock(); }
bool GOMP_single_start()
{
  if (!t_team) return true;
  std::lock_guard<std::mutex> l(t_team->m);
  unsigned k = t_single++;
  while (t_team->singles.size() <= k) t_team->singles.push_back(0);
  return t_team->singles[k]++ == 0;
}
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { return GOMP_barrier(), false; }
#define SCHED(name)                                                                                        \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return start(s, e, i, c, a, b); } \
  bool GOMP_loop_##name##_next(long* a, long* b) { return next(a, b); }                                     \
  bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { return ustart(up, s, e, i, c, a, b); } \
  bool GOMP_loop_ull_##name##_next(unsigned long long* a, unsigned long long* b) { return unext(a, b); }
SCHED(static)
SCHED(dynamic)
SCHED(guided)
SCHED(nonmonotonic_dynamic)
SCHED(nonmonotonic_guided)
#define SCHED0(name)                                                                                       \
  bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return start(s, e, i, 1, a, b); } \
  bool GOMP_loop_##name##_next(long* a, long* b) { return next(a, b); }                                     \
  bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) { return ustart(up, s, e, i, 1, a, b); } \
  bool GOMP_loop_ull_##name##_next(unsigned long long* a, unsigned long long* b) { return unext(a, b); }
SCHED0(runtime)
SCHED0(nonmonotonic_runtime)
SCHED0(maybe_nonmonotonic_runtime)
}
namespace
{
struct LoopCall {
  void (*fn)(void*);
  void* data;
  Loop init;
};
void with_loop(void* p)
{
  LoopCall* c = (LoopCall*)p;
  loop_at(true, c->init);
  c->fn(c->data);
}
void parallel_loop(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned flags)
{
  LoopCall q;
  q.fn = fn, q.data = data;
  q.init.next = s, q.init.end = e, q.init.incr = i, q.init.chunk = c > 0 ? c : 1;
  GOMP_parallel(with_loop, &q, n, flags);
}
}  // namespace
extern "C" {
#define PLOOP(name) \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f) { parallel_loop(fn, d, n, s, e, i, c, f); }
PLOOP(static)
PLOOP(dynamic)
PLOOP(guided)
PLOOP(nonmonotonic_dynamic)
PLOOP(nonmonotonic_guided)
#define PLOOP0(name) \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) { parallel_loop(fn, d, n, s, e, i, 1, f); }
PLOOP0(runtime)
PLOOP0(nonmonotonic_runtime)
PLOOP0(maybe_nonmonotonic_runtime)
}
