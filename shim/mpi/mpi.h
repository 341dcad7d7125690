// MPI model: every rank is a thread of one process, registered with
// mpisim::run.  Collectives meet at a barrier, sends are synchronous (the
// strictest behaviour MPI allows).  Used by both builds: no MPI library is
// installed here.
#pragma once
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <mutex>
#include <thread>
#include <vector>
#include "sx.h"
typedef int MPI_Comm;
typedef int MPI_Datatype; // its size
typedef long long MPI_Count;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
#define MPI_COMM_WORLD 91
#define MPI_BYTE 1
#define MPI_CHAR 1
#define MPI_INT 4
#define MPI_UINT32_T 4
#define MPI_UNSIGNED 4
#define MPI_DOUBLE 8
#define MPI_UINT64_T 8
#define MPI_SUCCESS 0
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
namespace mpisim {
struct Msg { const void *p; size_t n; int src, dst, tag; bool taken; };
struct World
{
  int size = 1;
  std::mutex m;
  std::condition_variable c;
  std::vector<std::thread::id> ids;
  int arrived = 0, generation = 0;
  std::vector<const void *> slot;
  std::vector<size_t> bytes;
  std::vector<Msg *> msgs;
};
inline World &world() { static World w; return w; }
inline int rank()
{
  auto &w = world();
  auto me = std::this_thread::get_id();
  std::unique_lock<std::mutex> l(w.m);
  for (int i = 0; i < (int)w.ids.size(); ++i) if (w.ids[i] == me) return i;
  sx::check(false, "MPI is called from the thread that initialised it");
  return 0;
}
inline void barrier()
{
  auto &w = world();
  std::unique_lock<std::mutex> l(w.m);
  int g = w.generation;
  if (++w.arrived == w.size) { w.arrived = 0; ++w.generation; w.c.notify_all(); }
  else w.c.wait(l, [&] { return w.generation != g; });
}
inline void put(int r, const void *p, size_t n)
{
  auto &w = world();
  { std::unique_lock<std::mutex> l(w.m); w.slot[r] = p; w.bytes[r] = n; }
  barrier();
}
// run f(rank) on every rank
inline void run(int size, std::function<void(int)> f)
{
  auto &w = world();
  w.size = size;
  w.ids.assign(size, std::thread::id());
  w.slot.assign(size, nullptr);
  w.bytes.assign(size, 0);
  std::vector<std::thread> t;
  for (int r = 0; r < size; ++r)
    t.emplace_back([r, &f, &w] {
      { std::unique_lock<std::mutex> l(w.m); w.ids[r] = std::this_thread::get_id(); }
      f(r);
    });
  for (auto &x : t) x.join();
}
inline void gatherv(bool here, int r, const void *s, size_t n, void *d, const int *sizes, const int *displs, size_t item)
{
  put(r, s, n);
  auto &w = world();
  if (here)
    for (int i = 0; i < w.size; ++i) {
      sx::check((size_t)sizes[i] * item == w.bytes[i], "MPI gather: the size received is the size sent");
      if (w.bytes[i]) memcpy((char *)d + (size_t)displs[i] * item, w.slot[i], w.bytes[i]);
    }
  barrier();
}
inline void gather(bool here, int r, const void *s, size_t n, void *d, size_t m)
{
  put(r, s, n);
  auto &w = world();
  if (here)
    for (int i = 0; i < w.size; ++i) {
      sx::check(m == w.bytes[i], "MPI gather: the size received is the size sent");
      memcpy((char *)d + i * m, w.slot[i], m);
    }
  barrier();
}
}
inline int MPI_Initialized(int *f) { *f = 1; return 0; }
inline int MPI_Init(int *, char ***) { return 0; }
inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = mpisim::rank(); return 0; }
inline int MPI_Comm_size(MPI_Comm, int *s) { *s = mpisim::world().size; return 0; }
inline int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *d, int m, MPI_Datatype u, MPI_Comm)
{ mpisim::gather(true, mpisim::rank(), s, (size_t)n * t, d, (size_t)m * u); return 0; }
inline int MPI_Gather(const void *s, int n, MPI_Datatype t, void *d, int m, MPI_Datatype u, int root, MPI_Comm)
{ int r = mpisim::rank(); mpisim::gather(r == root, r, s, (size_t)n * t, d, (size_t)m * u); return 0; }
inline int MPI_Allgatherv(const void *s, int n, MPI_Datatype t, void *d, const int *sizes, const int *displs, MPI_Datatype u, MPI_Comm)
{ mpisim::gatherv(true, mpisim::rank(), s, (size_t)n * t, d, sizes, displs, u); return 0; }
inline int MPI_Gatherv(const void *s, int n, MPI_Datatype t, void *d, const int *sizes, const int *displs, MPI_Datatype u, int root, MPI_Comm)
{ int r = mpisim::rank(); mpisim::gatherv(r == root, r, s, (size_t)n * t, d, sizes, displs, u); return 0; }
inline int MPI_Bcast(void *p, int n, MPI_Datatype t, int root, MPI_Comm)
{
  int r = mpisim::rank();
  auto &w = mpisim::world();
  mpisim::put(r, p, (size_t)n * t);
  sx::check(w.bytes[root] == (size_t)n * t, "MPI_Bcast: every rank names the same size");
  if (r != root) memcpy(p, w.slot[root], (size_t)n * t);
  mpisim::barrier();
  return 0;
}
inline int MPIX_Send_x(const void *p, MPI_Count n, MPI_Datatype t, int dst, int tag, MPI_Comm)
{
  auto &w = mpisim::world();
  mpisim::Msg m{ p, (size_t)n * t, mpisim::rank(), dst, tag, false };
  std::unique_lock<std::mutex> l(w.m);
  w.msgs.push_back(&m);
  w.c.notify_all();
  w.c.wait(l, [&] { return m.taken; });
  return 0;
}
inline int MPIX_Recv_x(void *p, MPI_Count n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status *)
{
  auto &w = mpisim::world();
  int me = mpisim::rank();
  std::unique_lock<std::mutex> l(w.m);
  while (true) {
    for (size_t i = 0; i < w.msgs.size(); ++i) {
      auto *m = w.msgs[i];
      if (m->src != src || m->dst != me || m->tag != tag) continue;
      sx::check(m->n <= (size_t)n * t, "MPI_Recv: the message fits");
      if (m->n) memcpy(p, m->p, m->n);
      w.msgs.erase(w.msgs.begin() + i);
      m->taken = true;
      w.c.notify_all();
      return 0;
    }
    w.c.wait(l);
  }
}
inline int MPI_Send(const void *p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return MPIX_Send_x(p, n, t, dst, tag, c); }
inline int MPI_Recv(void *p, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s) { return MPIX_Recv_x(p, n, t, src, tag, c, s); }
