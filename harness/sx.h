// Harness API.  The same harness source is
//  (a) compiled by clang to LLVM IR and executed symbolically by symx, and
//  (b) compiled natively (with sanitizers, against the real libstdc++) to
//      replay a solver counterexample / sample model on the real code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <vector>
extern "C" {
void sx_sym_raw(void *p, size_t count, size_t eltBytes, const char *name);
uint64_t sx_bits_raw(unsigned bits, const char *name);
void sx_assume_raw(bool);
void sx_assert_raw(bool, const char *msg);
void sx_assert_mem_raw(const void *a, const void *b, size_t n, const char *msg);
void sx_fail_raw(const char *msg) __attribute__((noreturn));
void sx_end_raw() __attribute__((noreturn));
void sx_reach_raw(const char *label);
void sx_reach_if_raw(bool c, const char *label);
uint64_t sx_concretize_raw(uint64_t);
void sx_out_raw(const char *name, uint64_t v);
bool sx_native_raw();
void sx_print_raw(const char *name, uint64_t v);
int sx_ctx_new(void (*fn)(void *), void *arg);
int sx_ctx_self();
void sx_ctx_switch(int t);
void *sx_malloc(size_t n, int how);
void sx_free(void *p);
}
namespace sx {
template <typename T> void fill(T *p, size_t n, const char *name) { sx_sym_raw((void *)p, n, sizeof(T), name); }
template <typename T> T any(const char *name)
{
  T v;
  sx_sym_raw((void *)&v, 1, sizeof(T), name);
  return v;
}
inline unsigned bitsFor(uint64_t n) { unsigned b = 1; while (b < 64 && (n >> b)) ++b; return b; }
inline void assume(bool c) { sx_assume_raw(c); }
inline void check(bool c, const char *m) { sx_assert_raw(c, m); }
inline void reach(const char *l) { sx_reach_raw(l); }
// symbolic integer in [lo, hi]
inline int64_t range(int64_t lo, int64_t hi, const char *name)
{
  uint64_t span = (uint64_t)(hi - lo);
  uint64_t v = sx_bits_raw(bitsFor(span), name);
  if (span != ((2ull << (bitsFor(span) - 1)) - 1)) sx_assume_raw(v <= span);
  return lo + (int64_t)v;
}
// same, but every value gets its own path (the solver enumerates the feasible values)
inline int64_t choose(int64_t lo, int64_t hi, const char *name)
{
  if (lo == hi) return lo;
  return (int64_t)sx_concretize_raw((uint64_t)range(lo, hi, name));
}
inline bool flag(const char *name) { return sx_bits_raw(1, name) != 0; }
inline bool chooseFlag(const char *name) { return sx_concretize_raw(sx_bits_raw(1, name)) != 0; }
inline void out(const char *n, uint64_t v) { sx_out_raw(n, v); }
} // namespace sx
