// Monitoring stand-in for a CUDA device: kernels run on the host, one call per device thread, in an order (or on several
// threads, VF_CUDA_WORKERS) that the seed decides. Device memory is unreachable while host code runs, ends at a page that is
// never accessible, and starts out as 0xff bytes. Launches and asynchronous copies wait in a queue until something
// synchronises (VF_CUDA_LAZY=1) or run at once. Erroneous use is reported as VF-CUDA-ERROR and ends the program.
#pragma once
#include <math.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <functional>
#include <map>
#include <mutex>
#include <condition_variable>
#include <random>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#define __global__
#define __device__
#define __host__
#define __constant__ static
#define __shared__ static
#define __managed__
#define __forceinline__ inline
#define __noinline__
#define __launch_bounds__(...)
#define __align__(n) __attribute__((aligned(n)))

struct uint3 { unsigned x, y, z; };
struct dim3 {
  unsigned x, y, z;
  dim3(unsigned a = 1, unsigned b = 1, unsigned c = 1) : x(a), y(b), z(c) {}
};
struct double2 { double x, y; };
struct int2 { int x, y; };
struct uint2 { unsigned x, y; };
static inline double2 make_double2(double a, double b) { return double2{a, b}; }
static inline int2 make_int2(int a, int b) { return int2{a, b}; }
static inline uint2 make_uint2(unsigned a, unsigned b) { return uint2{a, b}; }

static thread_local uint3 threadIdx, blockIdx;
static thread_local dim3 blockDim, gridDim;
static const int warpSize = 32;

enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9 };
typedef cudaError_t cudaError;
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
typedef void* cudaStream_t;
typedef int cudaEvent_t;
struct cudaDeviceProp { char name[256]; size_t totalGlobalMem; int maxThreadsPerBlock, multiProcessorCount, major, minor; };
enum { cudaEventDefault = 0, cudaEventBlockingSync = 1, cudaEventDisableTiming = 2, cudaStreamNonBlocking = 1 };

namespace vf_cuda
{
struct Mem { size_t bytes, span; char* base; bool live; };
struct Counts { long launches, threads, blocks, copies, bytes, allocs, frees, syncs, partial, empty; };
struct Dev {
  std::map<char*, Mem> mem;
  std::vector<std::pair<std::string, std::function<void()>>> queue;
  std::map<std::string, long> kernels;
  bool lazy = false, open = false;
  int workers = 1;
  std::mt19937_64 rng;
  cudaError_t last = cudaSuccess;
  Counts n{};
  std::vector<char> event_done;
  Dev()
  {
    const char* v = getenv("VF_CUDA_LAZY");
    lazy = v && *v == '1';
    v = getenv("VF_CUDA_WORKERS");
    if (v) workers = atoi(v);
    v = getenv("VF_CUDA_SEED");
    rng.seed(v ? atoll(v) : 1);
  }
  ~Dev()
  {
    const char* p = getenv("VF_CUDA_LOG");
    FILE* f = p ? fopen(p, "w") : 0;
    if (!f) return;
    fprintf(f, "launches %ld\nthreads %ld\nblocks %ld\ncopies %ld\ncopied_bytes %ld\nallocations %ld\nfrees %ld\nsynchronisations %ld\npartial_tile_launches %ld\nrejected_launches %ld\n", n.launches, n.threads,
            n.blocks, n.copies, n.bytes, n.allocs, n.frees, n.syncs, n.partial, n.empty);
    for (auto& k : kernels) fprintf(f, "kernel:%s %ld\n", k.first.c_str(), k.second);
    fclose(f);
  }
};
inline Dev& dev()
{
  static Dev d;
  return d;
}
[[noreturn]] inline void error(const std::string& t)
{
  fflush(stdout);
  fprintf(stderr, "VF-CUDA-ERROR: %s\n", t.c_str());
  fflush(stderr);
  _exit(98);
}
inline size_t page() { return 4096; }
// A live or dead allocation that contains p.
inline Mem* find(const void* p, size_t* off = 0)
{
  auto& m = dev().mem;
  auto i = m.upper_bound((char*)p);
  if (i == m.begin()) return 0;
  --i;
  if ((char*)p > i->first + i->second.bytes) return 0;
  if (off) *off = (char*)p - i->first;
  return &i->second;
}
inline bool in_arena(const void* p)
{
  for (auto& m : dev().mem)
    if ((char*)p >= m.second.base && (char*)p < m.second.base + m.second.span + page()) return true;
  return false;
}
inline void protect(bool open)
{
  for (auto& m : dev().mem)
    if (m.second.live) mprotect(m.second.base, m.second.span, open ? PROT_READ | PROT_WRITE : PROT_NONE);
  dev().open = open;
}
inline void flush()
{
  auto& d = dev();
  if (d.queue.empty()) return;
  protect(true);
  auto q = std::move(d.queue);
  d.queue.clear();
  for (auto& w : q) w.second();
  for (auto& m : d.mem)  // what lies before and behind an allocation stays as it was
    if (m.second.live) {
      for (char* c = m.second.base; c < m.first; ++c)
        if (*c != (char)0xff) error("something was written before the start of a device allocation");
      for (char* c = m.first + m.second.bytes; c < m.second.base + m.second.span; ++c)
        if (*c != (char)0xff) error("something was written behind the end of a device allocation");
    }
  protect(false);
}
inline void enqueue(const std::string& name, std::function<void()> f)
{
  dev().queue.push_back({name, std::move(f)});
  if (!dev().lazy) flush();
}

#ifdef VF_CUDA_BLOCKS  // the sources use shared memory or block barriers: all threads of a block run together
struct Barrier {
  std::mutex m;
  std::condition_variable c;
  int live = 0, waiting = 0;
  long gen = 0;
  void release() { waiting = 0, ++gen, c.notify_all(); }
  void wait()
  {
    std::unique_lock<std::mutex> l(m);
    long g = gen;
    if (++waiting >= live)
      release();
    else
      c.wait(l, [&] { return gen != g; });
  }
  void leave()
  {
    std::unique_lock<std::mutex> l(m);
    if (--live > 0 && waiting >= live) release();
  }
};
inline Barrier& barrier()
{
  static Barrier b;
  return b;
}
#endif

inline void run_grid(dim3 g, dim3 b, const std::function<void()>& body)
{
  auto& d = dev();
  const unsigned nb = g.x * g.y * g.z, nt = b.x * b.y * b.z;
  std::vector<unsigned> bo(nb), to(nt);
  for (unsigned k = 0; k < nb; ++k) bo[k] = k;
  for (unsigned k = 0; k < nt; ++k) to[k] = k;
  const int order = d.rng() % 4;  // 0 as numbered, 1 reversed, otherwise shuffled
  if (order == 1) std::reverse(bo.begin(), bo.end()), std::reverse(to.begin(), to.end());
  if (order >= 2) std::shuffle(bo.begin(), bo.end(), d.rng), std::shuffle(to.begin(), to.end(), d.rng);
  auto one = [&](unsigned bk, unsigned tk) {
    blockDim = b, gridDim = g;
    blockIdx = uint3{bk % g.x, bk / g.x % g.y, bk / (g.x * g.y)};
    threadIdx = uint3{tk % b.x, tk / b.x % b.y, tk / (b.x * b.y)};
    body();
  };
#ifdef VF_CUDA_BLOCKS
  for (unsigned bk : bo) {
    barrier().live = nt;
    std::vector<std::thread> ts;
    for (unsigned tk : to)
      ts.emplace_back([&, tk] {
        one(bk, tk);
        barrier().leave();
      });
    for (auto& t : ts) t.join();
  }
#else
  const int w = std::max(1, std::min<int>(d.workers, nb * nt));
  if (w == 1) {
    for (unsigned bk : bo)
      for (unsigned tk : to) one(bk, tk);
  } else {  // the threads of the grid dealt to the workers at random
    std::vector<std::vector<std::pair<unsigned, unsigned>>> part(w);
    for (unsigned bk : bo)
      for (unsigned tk : to) part[d.rng() % w].push_back({bk, tk});
    std::vector<std::thread> ts;
    for (int k = 0; k < w; ++k)
      ts.emplace_back([&, k] {
        for (auto& p : part[k]) one(p.first, p.second);
      });
    for (auto& t : ts) t.join();
  }
#endif
}

// Numeric buffers handed to a kernel have to be device memory.
template <class T>
void check_arg(const char* kernel, T)
{
}
template <class T>
void check_ptr(const char* kernel, const T* p)
{
  if (!p || std::is_same<T, char>::value || !std::is_arithmetic<T>::value) return;
  Mem* m = find(p);
  if (!m) error(std::string("kernel ") + kernel + " was given a pointer that is not device memory");
  if (!m->live) error(std::string("kernel ") + kernel + " was given freed device memory");
}
template <class T>
void check_arg(const char* kernel, T* p)
{
  check_ptr(kernel, p);
}

template <class... P>
struct Launch {
  const char* name;
  void (*f)(P...);
  dim3 g, b;
  template <size_t... I>
  static void call(void (*f)(P...), std::tuple<P...>& a, std::index_sequence<I...>)
  {
    f(std::get<I>(a)...);
  }
  void operator()(P... p)
  {
    auto& d = dev();
    unsigned long nt = (unsigned long)b.x * b.y * b.z, nb = (unsigned long)g.x * g.y * g.z;
    if (!nt || !nb || nt > 1024 || b.x > 1024 || b.y > 1024 || b.z > 64 || g.x > 2147483647u || g.y > 65535 || g.z > 65535) {
      d.n.empty++;  // a device rejects such a launch: nothing runs
      d.last = cudaErrorInvalidConfiguration;
      return;
    }
    d.n.launches++, d.n.blocks += nb, d.n.threads += nb * nt, d.kernels[name]++;
    int dummy[] = {0, (check_arg(name, p), 0)...};
    (void)dummy;
    std::tuple<P...> a(p...);
    auto f_ = f;
    auto g_ = g, b_ = b;
    enqueue(name, [f_, g_, b_, a]() mutable {
      run_grid(g_, b_, [&] {
        std::tuple<P...> mine(a);
        call(f_, mine, std::index_sequence_for<P...>());
      });
    });
  }
};
template <class... P>
Launch<P...> launch(const char* name, void (*f)(P...), dim3 g, dim3 b, size_t = 0, cudaStream_t = 0)
{
  return Launch<P...>{name, f, g, b};
}
inline cudaError_t alloc(void** p, size_t n)
{
  auto& d = dev();
  d.n.allocs++;
  size_t use = (n + 15) / 16 * 16, span = (use + page() - 1) / page() * page();
  if (!span) span = page();
  char* base = (char*)mmap(0, span + 2 * page(), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (base == MAP_FAILED) return cudaErrorMemoryAllocation;
  base += page();
  mprotect(base, span, PROT_READ | PROT_WRITE);
  memset(base, 0xff, span);
  mprotect(base, span, PROT_NONE);
  char* u = base + span - use;
  d.mem[u] = Mem{n, span, base, true};
  *p = u;
  return cudaSuccess;
}
inline cudaError_t release(void* p)
{
  if (!p) return cudaSuccess;
  auto& d = dev();
  flush();
  auto i = d.mem.find((char*)p);
  if (i == d.mem.end()) error("cudaFree of something that is not the start of a device allocation");
  if (!i->second.live) error("cudaFree of freed device memory");
  d.n.frees++;
  i->second.live = false;
  mprotect(i->second.base, i->second.span, PROT_NONE);
  madvise(i->second.base, i->second.span, MADV_DONTNEED);
  return cudaSuccess;
}
inline void check_side(const char* what, const void* p, size_t n, bool device)
{
  size_t off = 0;
  Mem* m = find(p, &off);
  if (!n) return;
  if (device) {
    if (!m) error(std::string(what) + " is not device memory");
    if (!m->live) error(std::string(what) + " is freed device memory");
    if (off + n > m->bytes) error(std::string(what) + " goes beyond its device allocation");
  } else if (m || in_arena(p))
    error(std::string(what) + " is device memory where host memory was announced");
}
inline cudaError_t copy(void* to, const void* from, size_t n, cudaMemcpyKind k, bool async)
{
  auto& d = dev();
  d.n.copies++, d.n.bytes += n;
  if (k == cudaMemcpyDefault) k = cudaMemcpyKind((find(from) ? 2 : 0) + (find(to) ? 1 : 0));
  check_side("copy target", to, n, k == cudaMemcpyHostToDevice || k == cudaMemcpyDeviceToDevice);
  check_side("copy source", from, n, k == cudaMemcpyDeviceToHost || k == cudaMemcpyDeviceToDevice);
  d.queue.push_back({"copy", [=] { memmove(to, from, n); }});
  if (!async || !d.lazy) flush();
  return cudaSuccess;
}
inline cudaError_t sync()
{
  dev().n.syncs++;
  flush();
  return cudaSuccess;
}
}  // namespace vf_cuda

template <class T>
cudaError_t cudaMalloc(T** p, size_t n)
{
  return vf_cuda::alloc((void**)p, n);
}
template <class T>
cudaError_t cudaMallocHost(T** p, size_t n)
{
  *p = (T*)malloc(n);
  return cudaSuccess;
}
inline cudaError_t cudaFreeHost(void* p)
{
  vf_cuda::flush();
  free(p);
  return cudaSuccess;
}
inline cudaError_t cudaFree(void* p) { return vf_cuda::release(p); }
inline cudaError_t cudaMemcpy(void* to, const void* from, size_t n, cudaMemcpyKind k) { return vf_cuda::copy(to, from, n, k, false); }
inline cudaError_t cudaMemcpyAsync(void* to, const void* from, size_t n, cudaMemcpyKind k, cudaStream_t = 0) { return vf_cuda::copy(to, from, n, k, true); }
inline cudaError_t cudaMemset(void* p, int v, size_t n)
{
  vf_cuda::check_side("memset target", p, n, true);
  vf_cuda::enqueue("memset", [=] { memset(p, v, n); });
  return cudaSuccess;
}
inline cudaError_t cudaMemsetAsync(void* p, int v, size_t n, cudaStream_t = 0) { return cudaMemset(p, v, n); }
inline cudaError_t cudaDeviceSynchronize() { return vf_cuda::sync(); }
inline cudaError_t cudaThreadSynchronize() { return vf_cuda::sync(); }
inline cudaError_t cudaStreamSynchronize(cudaStream_t) { return vf_cuda::sync(); }
inline cudaError_t cudaStreamCreate(cudaStream_t* s)
{
  *s = 0;
  return cudaSuccess;
}
inline cudaError_t cudaStreamDestroy(cudaStream_t) { return vf_cuda::sync(); }
inline cudaError_t cudaEventCreate(cudaEvent_t* e)
{
  *e = 1;
  return cudaSuccess;
}
inline cudaError_t cudaEventCreateWithFlags(cudaEvent_t* e, unsigned) { return cudaEventCreate(e); }
inline cudaError_t cudaEventDestroy(cudaEvent_t) { return cudaSuccess; }
inline cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t = 0) { return cudaSuccess; }
inline cudaError_t cudaEventRecord(cudaEvent_t, int) { return cudaSuccess; }
inline cudaError_t cudaEventSynchronize(cudaEvent_t) { return vf_cuda::sync(); }
inline cudaError_t cudaEventElapsedTime(float* t, cudaEvent_t, cudaEvent_t)
{
  *t = 0.25f;
  return cudaSuccess;
}
inline cudaError_t cudaGetLastError()
{
  cudaError_t e = vf_cuda::dev().last;
  vf_cuda::dev().last = cudaSuccess;
  return e;
}
inline cudaError_t cudaPeekAtLastError() { return vf_cuda::dev().last; }
inline const char* cudaGetErrorString(cudaError_t e) { return e == cudaSuccess ? "no error" : "error"; }
inline const char* cudaGetErrorName(cudaError_t e) { return e == cudaSuccess ? "cudaSuccess" : "cudaError"; }
inline cudaError_t cudaSetDevice(int) { return cudaSuccess; }
inline cudaError_t cudaGetDevice(int* d)
{
  *d = 0;
  return cudaSuccess;
}
inline cudaError_t cudaGetDeviceCount(int* n)
{
  *n = 1;
  return cudaSuccess;
}
inline cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int)
{
  memset(p, 0, sizeof *p);
  strcpy(p->name, "stand-in");
  p->totalGlobalMem = 1ul << 33, p->maxThreadsPerBlock = 1024, p->multiProcessorCount = 8, p->major = 7;
  return cudaSuccess;
}
inline cudaError_t cudaDeviceReset() { return vf_cuda::sync(); }
template <class T>
cudaError_t cudaMemcpyToSymbol(T& to, const void* from, size_t n, size_t off = 0, cudaMemcpyKind = cudaMemcpyHostToDevice)
{
  vf_cuda::flush();
  memcpy((char*)&to + off, from, n);
  return cudaSuccess;
}
template <class T>
T __ldg(const T* p)
{
  return *p;
}
template <class T>
T atomicAdd(T* p, T v)
{
  static std::mutex m;
  std::lock_guard<std::mutex> l(m);
  T o = *p;
  *p = o + v;
  return o;
}
#ifdef VF_CUDA_BLOCKS
inline void __syncthreads() { vf_cuda::barrier().wait(); }
inline void __syncwarp(unsigned = 0) {}
#endif
inline void __threadfence() {}
inline void __threadfence_block() {}
inline double __dmul_rn(double a, double b) { return a * b; }
inline double __dadd_rn(double a, double b) { return a + b; }
