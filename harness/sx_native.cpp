// Native implementation of the harness API: replays recorded inputs.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <pthread.h>
#include <string>
#include <unistd.h>

#ifdef SX_TSAN
extern "C" {
void AnnotateIgnoreSyncBegin(const char *, int);
void AnnotateIgnoreSyncEnd(const char *, int);
void AnnotateIgnoreReadsBegin(const char *, int);
void AnnotateIgnoreReadsEnd(const char *, int);
void AnnotateIgnoreWritesBegin(const char *, int);
void AnnotateIgnoreWritesEnd(const char *, int);
void __tsan_acquire(void *);
void __tsan_release(void *);
}
#define IGN_BEGIN (AnnotateIgnoreSyncBegin("", 0), AnnotateIgnoreReadsBegin("", 0), AnnotateIgnoreWritesBegin("", 0))
#define IGN_END (AnnotateIgnoreWritesEnd("", 0), AnnotateIgnoreReadsEnd("", 0), AnnotateIgnoreSyncEnd("", 0))
#else
#define IGN_BEGIN
#define IGN_END
#endif
struct Ign { Ign() { IGN_BEGIN; } ~Ign() { IGN_END; } };
static std::map<std::string, uint64_t> &in()
{
  static std::map<std::string, uint64_t> m;
  static bool init = false;
  if (!init) {
    init = true;
    const char *f = getenv("SX_REPLAY");
    FILE *fp = f ? fopen(f, "r") : nullptr;
    char name[512];
    unsigned long long v;
    while (fp && fscanf(fp, "%500s %llu", name, &v) == 2) m[name] = v;
    if (fp) fclose(fp);
  }
  return m;
}
static std::map<std::string, unsigned> g_cnt;
static std::string nm(const char *n)
{
  unsigned k = g_cnt[n]++;
  return k ? std::string(n) + "#" + std::to_string(k) : n;
}
static bool g_failed = false;
static void fin(int code)
{
  fflush(nullptr);
  _exit(code);
}
extern "C" {
void sx_sym_raw(void *p, size_t count, size_t w, const char *name)
{
  if (!count) return;
  Ign ign;
  std::string n = nm(name);
  for (size_t i = 0; i < count; ++i) {
    auto it = in().find(count == 1 ? n : n + "[" + std::to_string(i) + "]");
    uint64_t v = it == in().end() ? 0 : it->second;
    memcpy((char *)p + i * w, &v, w);
  }
}
uint64_t sx_bits_raw(unsigned bits, const char *name)
{
  Ign ign;
  auto it = in().find(nm(name));
  uint64_t v = it == in().end() ? 0 : it->second;
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void sx_assume_raw(bool c)
{
  if (!c) { printf("SX-ASSUME-FALSE\n"); fin(g_failed ? 66 : 77); }
}
void sx_assert_raw(bool c, const char *msg)
{
  if (!c) { printf("SX-FAIL assert %s\n", msg); g_failed = true; }
}
void sx_assert_mem_raw(const void *a, const void *b, size_t n, const char *msg)
{
  sx_assert_raw(memcmp(a, b, n) == 0, msg);
}
void sx_fail_raw(const char *msg)
{
  printf("SX-FAIL assert %s\n", msg);
  fin(66);
}
void sx_end_raw() { printf("SX-END\n"); fin(g_failed ? 66 : 0); }
void sx_reach_raw(const char *) {}
void sx_reach_if_raw(bool, const char *) {}
uint64_t sx_concretize_raw(uint64_t v) { return v; }
void sx_out_raw(const char *n, uint64_t v) { printf("SX-OUT %s %llu\n", n, (unsigned long long)v); }
bool sx_native_raw() { return true; }
void sx_print_raw(const char *, uint64_t) {}

// contexts: one token passed between pthreads, so exactly one runs at a time
struct Ctx { pthread_t t; void (*fn)(void *); void *arg; bool go; pthread_cond_t cv; };
static Ctx g_ctx[64];
static int g_nctx = 1, g_cur = 0;
static pthread_mutex_t g_mx = PTHREAD_MUTEX_INITIALIZER;
static void *tramp(void *p)
{
  Ctx *c = (Ctx *)p;
  IGN_BEGIN;
  pthread_mutex_lock(&g_mx);
  while (!c->go) pthread_cond_wait(&c->cv, &g_mx);
  pthread_mutex_unlock(&g_mx);
  IGN_END;
  c->fn(c->arg);
  return nullptr;
}
int sx_ctx_new(void (*fn)(void *), void *arg)
{
  if (g_nctx == 1) pthread_cond_init(&g_ctx[0].cv, nullptr);
  int i = g_nctx++;
  g_ctx[i].fn = fn; g_ctx[i].arg = arg; g_ctx[i].go = false;
  pthread_cond_init(&g_ctx[i].cv, nullptr);
  pthread_create(&g_ctx[i].t, nullptr, tramp, &g_ctx[i]);
  return i;
}
int sx_ctx_self() { return g_cur; }
void sx_ctx_switch(int t)
{
  IGN_BEGIN;
  pthread_mutex_lock(&g_mx);
  int me = g_cur;
  if (t != me) {
    g_ctx[me].go = false;
    g_cur = t;
    g_ctx[t].go = true;
    pthread_cond_signal(&g_ctx[t].cv);
    while (!g_ctx[me].go) pthread_cond_wait(&g_ctx[me].cv, &g_mx);
  }
  pthread_mutex_unlock(&g_mx);
  IGN_END;
}
extern void sx_main();
}
static void onTerminate()
{
  printf("SX-FAIL terminate\n");
  fin(67);
}
int main()
{
  std::set_terminate(onTerminate);
  alarm(120);
  try {
    sx_main();
  } catch (std::exception &e) {
    printf("SX-FAIL exception %s\n", e.what());
    fin(67);
  } catch (...) {
    printf("SX-FAIL exception\n");
    fin(67);
  }
  printf("SX-DONE\n");
  fin(g_failed ? 66 : 0);
}
extern "C" void sx_hb_raw(int op, const void *k)
{
#ifdef SX_TSAN
  if (op == 2) __tsan_release((void *)k); else __tsan_acquire((void *)k);
#endif
}
