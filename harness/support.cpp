// Library functions that live in libstdc++/libc shared objects, given as source
// so that they are interpreted like the rest of the program (symbolic build only).
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <stdexcept>
#include <exception>
#include <typeinfo>
#include <functional>
#include <memory>
#include <unordered_map>
#include <bits/stl_tree.h>
#include <list>
#include <chrono>
#include "sx.h"
#include "sxrt.h"

void *operator new(size_t n) { void *p = sx_malloc(n, 2); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = sx_malloc(n, 3); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, std::align_val_t) { void *p = sx_malloc(n, 2); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t) { void *p = sx_malloc(n, 3); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sx_malloc(n, 2); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sx_malloc(n, 3); }
void operator delete(void *p) noexcept { sx_free(p); }
void operator delete[](void *p) noexcept { sx_free(p); }
void operator delete(void *p, size_t) noexcept { sx_free(p); }
void operator delete[](void *p, size_t) noexcept { sx_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { sx_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sx_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sx_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sx_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sx_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sx_free(p); }
const std::nothrow_t std::nothrow = std::nothrow_t{};

extern "C" {
int memcmp(const void *a, const void *b, size_t n)
{
  const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
  for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
int bcmp(const void *a, const void *b, size_t n)
{
  const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
  for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return 1;
  return 0;
}
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char *a, const char *b)
{
  while (*a && *a == *b) { ++a; ++b; }
  return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n)
{
  for (; n && *a && *a == *b; --n) { ++a; ++b; }
  return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0;
}
void *sx_memchr(const void *s, int c, size_t n) __asm__("memchr");
void *sx_memchr(const void *s, int c, size_t n)
{
  const unsigned char *p = (const unsigned char *)s;
  for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void *)(p + i);
  return nullptr;
}
char *sx_strchr(const char *s, int c) __asm__("strchr");
char *sx_strchr(const char *s, int c)
{
  for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; }
}
int __cxa_guard_acquire(uint64_t *g) { return *(char *)g == 0; }
void __cxa_guard_release(uint64_t *g) { *(char *)g = 1; }
void __cxa_guard_abort(uint64_t *) {}
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void *__dynamic_cast(const void *p, const void *, const void *, ptrdiff_t) { return (void *)p; }
}

namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "bad_cast"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "bad_exception"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

__cow_string::__cow_string() {}
__cow_string::__cow_string(const std::string &) {}
__cow_string::__cow_string(const char *, size_t) {}
__cow_string::__cow_string(const __cow_string &) noexcept {}
__cow_string &__cow_string::operator=(const __cow_string &) noexcept { return *this; }
__cow_string::~__cow_string() {}
#if __cplusplus >= 201103L
__cow_string::__cow_string(__cow_string &&) noexcept {}
__cow_string &__cow_string::operator=(__cow_string &&) noexcept { return *this; }
#endif
logic_error::logic_error(const string &) {}
logic_error::logic_error(const char *) {}
logic_error::logic_error(logic_error &&) noexcept {}
logic_error::logic_error(const logic_error &) noexcept {}
logic_error &logic_error::operator=(logic_error &&) noexcept { return *this; }
logic_error &logic_error::operator=(const logic_error &) noexcept { return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return "logic_error"; }
runtime_error::runtime_error(const string &) {}
runtime_error::runtime_error(const char *) {}
runtime_error::runtime_error(runtime_error &&) noexcept {}
runtime_error::runtime_error(const runtime_error &) noexcept {}
runtime_error &runtime_error::operator=(runtime_error &&) noexcept { return *this; }
runtime_error &runtime_error::operator=(const runtime_error &) noexcept { return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return "runtime_error"; }
#define DEF(T, B) T::T(const string &s) : B(s) {} T::T(const char *s) : B(s) {} T::~T() noexcept {}
DEF(domain_error, logic_error)
DEF(invalid_argument, logic_error)
DEF(length_error, logic_error)
DEF(out_of_range, logic_error)
DEF(range_error, runtime_error)
DEF(overflow_error, runtime_error)
DEF(underflow_error, runtime_error)
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_optional_access();

// red-black tree helpers (unbalanced but ordered trees are observationally equal)
_GLIBCXX_PURE _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
  if (x->_M_right != 0) {
    x = x->_M_right;
    while (x->_M_left != 0) x = x->_M_left;
  } else {
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
_GLIBCXX_PURE const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_GLIBCXX_PURE _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left != 0) {
    _Rb_tree_node_base *y = x->_M_left;
    while (y->_M_right != 0) y = y->_M_right;
    x = y;
  } else {
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    x = y;
  }
  return x;
}
_GLIBCXX_PURE const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
{
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  h._M_color = _S_red;
}
static void transplant(_Rb_tree_node_base *u, _Rb_tree_node_base *v, _Rb_tree_node_base &h)
{
  if (u == h._M_parent) h._M_parent = v;
  else if (u == u->_M_parent->_M_left) u->_M_parent->_M_left = v;
  else u->_M_parent->_M_right = v;
  if (v) v->_M_parent = u->_M_parent;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw()
{
  if (!z->_M_left) transplant(z, z->_M_right, h);
  else if (!z->_M_right) transplant(z, z->_M_left, h);
  else {
    _Rb_tree_node_base *y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      transplant(y, y->_M_right, h);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    transplant(z, y, h);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  _Rb_tree_node_base *r = h._M_parent;
  if (!r) { h._M_left = &h; h._M_right = &h; }
  else {
    _Rb_tree_node_base *q = r;
    while (q->_M_left) q = q->_M_left;
    h._M_left = q;
    q = r;
    while (q->_M_right) q = q->_M_right;
    h._M_right = q;
  }
  return z;
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed)
{
  const unsigned char *c = (const unsigned char *)p;
  size_t h = seed ^ 1469598103934665603ull;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
  size_t b = 1;
  while (b < n) b = b * 2 + 1;
  _M_next_resize = b;
  return b;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
  if (ne + ni > _M_next_resize) {
    size_t want = ne + ni;
    if (want < nb * 2 + 1) want = nb * 2 + 1;
    if (want < 13) want = 13;
    return {true, _M_next_bkt(want)};
  }
  return {false, 0};
}
} // namespace __detail
extern "C++" {
// atomic operations on a shared_ptr: one lock per object
static const void *g_spKey[250];
static unsigned char spKey(const void *p)
{
  for (unsigned i = 1; i < 250; ++i) {
    if (!g_spKey[i]) g_spKey[i] = p;
    if (g_spKey[i] == p) return (unsigned char)i;
  }
  sx_fail_raw("too many atomic shared_ptr objects");
}
_Sp_locker::_Sp_locker(const void *p) noexcept : _M_key1(spKey(p)), _M_key2(0)
{
  sxrt::point();
  sx_hb_raw(1, &g_spKey[_M_key1]);
}
_Sp_locker::_Sp_locker(const void *p, const void *q) noexcept : _M_key1(spKey(p)), _M_key2(spKey(q))
{
  sxrt::point();
  sx_hb_raw(1, &g_spKey[_M_key1]);
  sx_hb_raw(1, &g_spKey[_M_key2]);
}
_Sp_locker::~_Sp_locker()
{
  sx_hb_raw(2, &g_spKey[_M_key1]);
  if (_M_key2) sx_hb_raw(2, &g_spKey[_M_key2]);
}
}
} // namespace std

// doubly linked list helpers
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) throw()
{ this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() throw()
{ _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) throw()
{
  if (this == last) return;
  last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
  _List_node_base *const t = this->_M_prev;
  this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
void _List_node_base::_M_reverse() throw()
{
  _List_node_base *t = this;
  do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) throw()
{
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      _List_node_base *n = x._M_next, *p = x._M_prev;
      x._M_next = y._M_next; x._M_prev = y._M_prev; y._M_next = n; y._M_prev = p;
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y;
  }
}
} // namespace __detail
// clocks stand still
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(); }
system_clock::time_point system_clock::now() noexcept { return time_point(); }
} }
} // namespace std
