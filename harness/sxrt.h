// Cooperative scheduler under the std::thread/mutex/condition_variable/future/
// atomic replacements in shim/both.  Exactly one thread runs; every scheduling
// decision is a solver-chosen value, so exploring the choices explores the
// interleavings (bounded by the preemption budget).
#pragma once
#include "sx.h"
namespace sxrt {
void setPreemptions(int n);     // budget of preemptive switches (blocking switches are free)
void setFreeBlocking(bool b);   // explore every choice of next thread at blocking points
void point();
void waitOn(const void *key);
void wakeAll(const void *key);
void wakeOne(const void *key);
void spawn(void (*fn)(void *), void *arg);
void finishSelf() __attribute__((noreturn));
int self();
int threadCount();
unsigned switches();
extern int g_hw;                // hardware_concurrency()
} // namespace sxrt
extern "C" void sx_hb_raw(int op, const void *key); // 1 acquire, 2 release
