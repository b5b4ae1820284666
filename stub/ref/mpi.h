// Monitoring stand-in for MPI: point-to-point messages over a socket pair between two processes of one program.
// Every call is written to the log named by VF_MPI_LOG; erroneous use (truncation, type mismatch, unknown rank, messages
// left over at the end, use before initialisation, waiting for a rank that has ended) is reported there as ERROR.
// VF_MPI_SYNC=1: a send returns only when the message has been received, as MPI allows.
#pragma once
#include <errno.h>
#include <poll.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
#include <deque>
#include <map>
#include <set>
#include <vector>

typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
struct MPI_Status {
  int MPI_SOURCE, MPI_TAG, MPI_ERROR;
  size_t vf_bytes;
};
#define MPI_COMM_WORLD 91
#define MPI_COMM_SELF 92
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
// size in the low byte
#define MPI_CHAR 0x101
#define MPI_BYTE 0x201
#define MPI_INT 0x304
#define MPI_UNSIGNED 0x404
#define MPI_FLOAT 0x504
#define MPI_DOUBLE 0x608
#define MPI_LONG 0x708
#define MPI_UNSIGNED_LONG 0x808
#define MPI_LONG_LONG 0x908
#define MPI_UNSIGNED_CHAR 0xa01

namespace vf_mpi
{
struct Head {
  uint32_t magic, tag, type, kind;  // kind 0 message, 1 acknowledgement, 2 barrier
  uint64_t bytes, serial;
};
struct Msg {
  Head h;
  std::vector<char> data;
};
struct State {
  int rank = -1, size = 0, fd = -1;
  bool up = false, sync = false, down = false;
  FILE* log = nullptr;
  uint64_t sent = 0, barriers = 0;
  std::set<uint64_t> acked;
  std::deque<Msg> queue;
  struct Pending {
    const void* p;
    std::vector<char> copy;
  };
  std::map<uint64_t, Pending> pending;  // sends begun by MPI_Isend and not completed
  uint64_t rng = 1;
};
inline State& st()
{
  static State s;
  return s;
}
inline uint64_t sum(const void* p, size_t n)
{
  uint64_t h = 1469598103934665603ull;
  for (size_t q = 0; q < n; ++q) h = (h ^ ((const unsigned char*)p)[q]) * 1099511628211ull;
  return h;
}
inline void error(const char* what)
{
  if (st().log) fprintf(st().log, "ERROR\t%d\t%s\n", st().rank, what), fflush(st().log);
}
inline void fatal(const char* what)
{
  error(what);
  _exit(77);
}
inline void need()
{
  if (!st().up) fatal("call before MPI_Init or after MPI_Finalize");
}
inline void jitter()
{
  State& s = st();
  s.rng = s.rng * 6364136223846793005ull + 1442695040888963407ull;
  unsigned k = (unsigned)(s.rng >> 40) % 16;
  if (k < 2) usleep(k * 300 + 100);
}
inline void put(const void* p, size_t n)
{
  const char* c = (const char*)p;
  while (n) {
    ssize_t k = send(st().fd, c, n, MSG_NOSIGNAL);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) fatal("message to a rank that has ended");
    c += k, n -= (size_t)k;
  }
}
inline bool get(void* p, size_t n)  // false at end of stream
{
  char* c = (char*)p;
  while (n) {
    struct pollfd f = {st().fd, POLLIN, 0};
    int r = poll(&f, 1, 60000);
    if (r == 0) fatal("deadlock: no message for 60 s");
    ssize_t k = recv(st().fd, c, n, 0);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    c += k, n -= (size_t)k;
  }
  return true;
}
inline void post(uint32_t kind, uint32_t tag, uint32_t type, const void* p, uint64_t bytes, uint64_t serial)
{
  Head h = {0x76664d50u, tag, type, kind, bytes, serial};
  put(&h, sizeof h);
  put(p, bytes);
}
inline bool pump()  // read one item from the stream
{
  Msg m;
  if (!get(&m.h, sizeof m.h)) return false;
  if (m.h.magic != 0x76664d50u) fatal("corrupt stream");
  m.data.resize(m.h.bytes);
  if (m.h.bytes && !get(m.data.data(), m.h.bytes)) fatal("a rank ended in the middle of a message");
  if (m.h.kind == 1)
    st().acked.insert(m.h.serial);
  else if (m.h.kind == 2)
    st().barriers++;
  else
    st().queue.push_back(m);
  return true;
}
}  // namespace vf_mpi

inline int MPI_Init(int*, char***)
{
  vf_mpi::State& s = vf_mpi::st();
  const char* r = getenv("VF_MPI_RANK");
  if (!r) return MPI_ERR_OTHER;
  s.rank = atoi(r), s.size = atoi(getenv("VF_MPI_SIZE")), s.fd = atoi(getenv("VF_MPI_FD"));
  s.sync = getenv("VF_MPI_SYNC") && atoi(getenv("VF_MPI_SYNC"));
  s.rng = (getenv("VF_MPI_SEED") ? strtoull(getenv("VF_MPI_SEED"), 0, 10) : 1) * 77 + (uint64_t)s.rank;
  if (getenv("VF_MPI_LOG")) s.log = fopen(getenv("VF_MPI_LOG"), "w");
  if (s.up || s.down) vf_mpi::fatal("MPI_Init called twice");
  s.up = true;
  if (s.log) fprintf(s.log, "INIT\t%d\n", s.rank);
  return MPI_SUCCESS;
}
inline int MPI_Init_thread(int* c, char*** v, int want, int* got)
{
  *got = want;
  return MPI_Init(c, v);
}
inline int MPI_Initialized(int* f) { return *f = vf_mpi::st().up || vf_mpi::st().down, MPI_SUCCESS; }
inline int MPI_Comm_rank(MPI_Comm, int* r) { return vf_mpi::need(), *r = vf_mpi::st().rank, MPI_SUCCESS; }
inline int MPI_Comm_size(MPI_Comm, int* n) { return vf_mpi::need(), *n = vf_mpi::st().size, MPI_SUCCESS; }
inline double MPI_Wtime()
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
inline int vf_mpi_send(const void* p, int count, MPI_Datatype type, int dest, int tag, bool wait)
{
  vf_mpi::need();
  vf_mpi::State& s = vf_mpi::st();
  if (dest == MPI_PROC_NULL) return MPI_SUCCESS;
  if (dest < 0 || dest >= s.size || dest == s.rank || count < 0 || tag < 0) vf_mpi::fatal("send with an invalid rank, tag or count");
  vf_mpi::jitter();
  size_t bytes = (size_t)count * (size_t)(type & 0xff);
  std::vector<char> copy((const char*)p, (const char*)p + bytes);  // a checked read of the whole buffer
  if (s.log) fprintf(s.log, "SEND\t%d\t%d\t%d\t%x\t%zu\t%016llx\n", s.rank, dest, tag, type, bytes, (unsigned long long)vf_mpi::sum(copy.data(), bytes)), fflush(s.log);
  vf_mpi::post(0, (uint32_t)tag, (uint32_t)type, copy.data(), bytes, ++s.sent);
  if (wait && s.sync)
    for (uint64_t me = s.sent; !s.acked.count(me);)
      if (!vf_mpi::pump()) vf_mpi::fatal("a synchronous send was never received");
  return MPI_SUCCESS;
}
inline int MPI_Send(const void* p, int n, MPI_Datatype t, int dest, int tag, MPI_Comm) { return vf_mpi_send(p, n, t, dest, tag, true); }
inline int MPI_Ssend(const void* p, int n, MPI_Datatype t, int dest, int tag, MPI_Comm) { return vf_mpi_send(p, n, t, dest, tag, true); }
inline int MPI_Recv(void* p, int count, MPI_Datatype type, int source, int tag, MPI_Comm, MPI_Status* status)
{
  vf_mpi::need();
  vf_mpi::State& s = vf_mpi::st();
  if (source == MPI_PROC_NULL) return MPI_SUCCESS;
  if ((source != MPI_ANY_SOURCE && (source < 0 || source >= s.size || source == s.rank)) || count < 0) vf_mpi::fatal("receive with an invalid rank or count");
  vf_mpi::jitter();
  for (;;) {
    for (auto it = s.queue.begin(); it != s.queue.end(); ++it)
      if (tag == MPI_ANY_TAG || (int)it->h.tag == tag) {
        vf_mpi::Msg m = *it;
        s.queue.erase(it);
        size_t room = (size_t)count * (size_t)(type & 0xff);
        if (m.h.bytes > room) vf_mpi::fatal("message truncated: the receive buffer is smaller than the message");
        if (m.h.type != (uint32_t)type && type != MPI_BYTE) vf_mpi::error("type mismatch between send and receive");
        for (size_t q = 0; q < m.h.bytes; ++q) ((char*)p)[q] = m.data[q];
        if (s.log)
          fprintf(s.log, "RECV\t%d\t%d\t%u\t%x\t%zu\t%016llx\n", s.rank, 1 - s.rank, m.h.tag, type, (size_t)m.h.bytes, (unsigned long long)vf_mpi::sum(p, m.h.bytes)), fflush(s.log);
        if (s.sync) vf_mpi::post(1, 0, 0, "", 0, m.h.serial);
        if (status) status->MPI_SOURCE = 1 - s.rank, status->MPI_TAG = (int)m.h.tag, status->MPI_ERROR = 0, status->vf_bytes = m.h.bytes;
        return MPI_SUCCESS;
      }
    if (!vf_mpi::pump()) vf_mpi::fatal("receive from a rank that has ended: the message was never sent");
  }
}
inline int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { return *n = (int)(s->vf_bytes / (size_t)(t & 0xff)), MPI_SUCCESS; }
inline int MPI_Sendrecv(const void* sp, int sn, MPI_Datatype stype, int dest, int stag, void* rp, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* st)
{
  vf_mpi_send(sp, sn, stype, dest, stag, false);
  return MPI_Recv(rp, rn, rt, src, rtag, c, st);
}
struct vf_mpi_request {
  void* p = nullptr;
  int n = 0, type = 0, src = 0, tag = 0;
  uint64_t serial = 0;  // of a send
};
typedef vf_mpi_request MPI_Request;
#define MPI_REQUEST_NULL MPI_Request()
inline int MPI_Isend(const void* p, int n, MPI_Datatype t, int dest, int tag, MPI_Comm, MPI_Request* r)
{
  *r = MPI_Request();
  if (dest == MPI_PROC_NULL) return MPI_SUCCESS;
  vf_mpi_send(p, n, t, dest, tag, false);
  vf_mpi::State& s = vf_mpi::st();
  size_t bytes = (size_t)n * (size_t)(t & 0xff);
  r->serial = s.sent;
  s.pending[s.sent] = vf_mpi::State::Pending{p, std::vector<char>((const char*)p, (const char*)p + bytes)};
  return MPI_SUCCESS;
}
inline int MPI_Issend(const void* p, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c, MPI_Request* r) { return MPI_Isend(p, n, t, dest, tag, c, r); }
inline int MPI_Rsend(const void* p, int n, MPI_Datatype t, int dest, int tag, MPI_Comm) { return vf_mpi_send(p, n, t, dest, tag, true); }
inline int MPI_Irecv(void* p, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Request* r)
{
  *r = MPI_Request();
  if (src == MPI_PROC_NULL) return MPI_SUCCESS;
  r->p = p, r->n = n, r->type = t, r->src = src, r->tag = tag;
  memset(p, 0xa5, (size_t)n * (size_t)(t & 0xff));  // undefined until the request completes
  return MPI_SUCCESS;
}
inline int MPI_Request_free(MPI_Request* r) { return vf_mpi::st().pending.erase(r->serial), *r = MPI_Request(), MPI_SUCCESS; }
inline int MPI_Wait(MPI_Request* r, MPI_Status* s)
{
  vf_mpi::need();
  if (r->serial) {
    vf_mpi::State& t = vf_mpi::st();
    if (t.sync)
      while (!t.acked.count(r->serial))
        if (!vf_mpi::pump()) vf_mpi::fatal("a synchronous send was never received");
    auto it = t.pending.find(r->serial);
    if (it != t.pending.end()) {
      std::vector<char> now((const char*)it->second.p, (const char*)it->second.p + it->second.copy.size());
      if (now != it->second.copy) vf_mpi::error("the buffer of a send was changed before the send was complete");
      t.pending.erase(it);
    }
    *r = MPI_Request();
    return MPI_SUCCESS;
  }
  if (!r->p) return MPI_SUCCESS;
  MPI_Request q = *r;
  *r = MPI_Request();
  return MPI_Recv(q.p, q.n, q.type, q.src, q.tag, MPI_COMM_WORLD, s);
}
inline int MPI_Waitall(int n, MPI_Request* r, MPI_Status* s)
{
  for (int q = 0; q < n; ++q) MPI_Wait(r + q, s ? s + q : s);
  return MPI_SUCCESS;
}
inline int MPI_Test(MPI_Request* r, int* flag, MPI_Status* s)
{
  *flag = 1;
  return MPI_Wait(r, s);  // an implementation may take its time
}
inline int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status* s)
{
  *flag = 1;
  return MPI_Waitall(n, r, s);
}
inline int MPI_Waitany(int n, MPI_Request* r, int* which, MPI_Status* s)
{
  for (*which = 0; *which < n; ++*which)
    if (r[*which].p || r[*which].serial) return MPI_Wait(r + *which, s);
  *which = -32766;
  return MPI_SUCCESS;
}
inline int MPI_Probe(int, int tag, MPI_Comm, MPI_Status* status)
{
  vf_mpi::need();
  vf_mpi::State& s = vf_mpi::st();
  for (;;) {
    for (auto& m : s.queue)
      if (tag == MPI_ANY_TAG || (int)m.h.tag == tag) {
        if (status) status->MPI_SOURCE = 1 - s.rank, status->MPI_TAG = (int)m.h.tag, status->MPI_ERROR = 0, status->vf_bytes = m.h.bytes;
        return MPI_SUCCESS;
      }
    if (!vf_mpi::pump()) vf_mpi::fatal("probe for a message of a rank that has ended");
  }
}
inline int MPI_Gather(const void* sp, int sn, MPI_Datatype t, void* rp, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  vf_mpi::State& s = vf_mpi::st();
  if (s.rank != root) return vf_mpi_send(sp, sn, t, root, (1 << 20) + 1, false);
  size_t block = (size_t)rn * (size_t)(rt & 0xff);
  if (sp != (const void*)-1) memcpy((char*)rp + block * (size_t)root, sp, (size_t)sn * (size_t)(t & 0xff));
  return s.size > 1 ? MPI_Recv((char*)rp + block * (size_t)(1 - root), rn, rt, 1 - root, (1 << 20) + 1, c, 0) : MPI_SUCCESS;
}
inline int MPI_Scatter(const void* sp, int sn, MPI_Datatype t, void* rp, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  vf_mpi::State& s = vf_mpi::st();
  if (s.rank != root) return MPI_Recv(rp, rn, rt, root, (1 << 20) + 2, c, 0);
  size_t block = (size_t)sn * (size_t)(t & 0xff);
  if (rp != (void*)-1) memcpy(rp, (const char*)sp + block * (size_t)root, block);
  return s.size > 1 ? vf_mpi_send((const char*)sp + block * (size_t)(1 - root), sn, t, 1 - root, (1 << 20) + 2, false) : MPI_SUCCESS;
}
#define MPI_IN_PLACE ((void*)-1)
inline int MPI_Barrier(MPI_Comm)
{
  vf_mpi::need();
  static uint64_t mine = 0;
  ++mine;
  vf_mpi::post(2, 0, 0, "", 0, mine);
  while (vf_mpi::st().barriers < mine)
    if (!vf_mpi::pump()) vf_mpi::fatal("barrier with a rank that has ended");
  return MPI_SUCCESS;
}
inline int MPI_Bcast(void* p, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  return vf_mpi::st().rank == root ? vf_mpi_send(p, n, t, 1 - root, 1 << 20, false) : MPI_Recv(p, n, t, root, 1 << 20, c, 0);
}
inline int MPI_Abort(MPI_Comm, int code)
{
  vf_mpi::error("MPI_Abort called");
  _exit(code ? code : 76);
}
inline int MPI_Finalize()
{
  vf_mpi::need();
  vf_mpi::State& s = vf_mpi::st();
  if (s.size > 1) {
    shutdown(s.fd, SHUT_WR);
    while (vf_mpi::pump()) {
    }
  }
  if (!s.queue.empty()) vf_mpi::error("messages were sent that are never received");
  for (auto& p : s.pending)
    if (p.second.copy.size()) vf_mpi::error("a send was begun and never completed (MPI_Wait)");
  if (s.log) fprintf(s.log, "FINALIZE\t%d\n", s.rank), fclose(s.log), s.log = nullptr;
  s.up = false, s.down = true;
  return MPI_SUCCESS;
}
inline int MPI_Finalized(int* f) { return *f = vf_mpi::st().down, MPI_SUCCESS; }
