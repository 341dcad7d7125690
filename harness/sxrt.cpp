#include "sxrt.h"
namespace sxrt {
enum { UNUSED = 0, RUNNABLE, BLOCKED, DONE };
static const int MAXT = 24;
static int g_n = 1;
static int g_st[MAXT] = { RUNNABLE };
static const void *g_key[MAXT];
static int g_ctx[MAXT];
static int g_cur = 0;
static int g_budget = 0;
static bool g_free = true;
static int g_consec = 0;
static unsigned g_switches = 0;
int g_hw = 2;
static const int SPIN = 48;
static int g_forced = 0; // forced switches in a row, with no thread blocking or ending in between
static const int LIVELOCK = 400;
void setPreemptions(int n) { g_budget = n; }
void setFreeBlocking(bool b) { g_free = b; }
int self() { return g_cur; }
int threadCount() { return g_n; }
unsigned switches() { return g_switches; }
static void go(int t)
{
  g_consec = 0;
  if (t == g_cur) return;
  g_cur = t;
  ++g_switches;
  sx_ctx_switch(g_ctx[t]);
}
// threads other than the current one that can run, round-robin from cur+1
static int others(int *l)
{
  int n = 0;
  for (int k = 1; k < g_n; ++k) {
    int t = (g_cur + k) % g_n;
    if (g_st[t] == RUNNABLE) l[n++] = t;
  }
  return n;
}
void point()
{
  if (g_n == 1) return;
  int l[MAXT];
  int n = others(l);
  if (!n) return;
  if (++g_consec > SPIN) {
    if (++g_forced > LIVELOCK) sx_fail_raw("livelock: threads keep running without getting anywhere");
    go(l[0]);
    return;
  }
  if (g_budget > 0) {
    int c = (int)sx::choose(0, n, "sched");
    if (c) { --g_budget; go(l[c - 1]); }
  }
}
static void blockPick()
{
  g_forced = 0;
  int l[MAXT];
  int n = others(l);
  if (!n) sx_fail_raw("deadlock: every thread is blocked");
  int c = 0;
  if (n > 1 && g_free) c = (int)sx::choose(0, n - 1, "sched");
  go(l[c]);
}
void waitOn(const void *key)
{
  g_st[g_cur] = BLOCKED;
  g_key[g_cur] = key;
  blockPick();
}
void wakeAll(const void *key)
{
  for (int t = 0; t < g_n; ++t)
    if (g_st[t] == BLOCKED && g_key[t] == key) g_st[t] = RUNNABLE;
}
void wakeOne(const void *key)
{
  int l[MAXT], n = 0;
  for (int t = 0; t < g_n; ++t)
    if (g_st[t] == BLOCKED && g_key[t] == key) l[n++] = t;
  if (!n) return;
  int c = n > 1 && g_free ? (int)sx::choose(0, n - 1, "wake") : 0;
  g_st[l[c]] = RUNNABLE;
}
void spawn(void (*fn)(void *), void *arg)
{
  if (g_n >= MAXT) sx_fail_raw("too many threads for the scheduler model");
  int t = g_n;
  g_ctx[t] = sx_ctx_new(fn, arg);
  g_st[t] = RUNNABLE;
  g_n = t + 1;
}
void finishSelf()
{
  g_st[g_cur] = DONE;
  blockPick();
  sx_fail_raw("finished thread resumed");
}
} // namespace sxrt
