// Stand-in for the pieces of pybind11 that stempy uses: arrays with shapes and strides, the GIL as a depth
// counter (checked on request), and the binding calls, which are recorded so that a harness can use what a
// module registers (fields by name, buffer descriptions, functions through def_hook).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/types.h>
#include "sx.h"
#define PYBIND11_EXPORT
namespace pybind11 {
typedef ssize_t ssize_t_;
struct gil_state { int depth = 0; bool checked = false; static gil_state &get() { static gil_state g; return g; } };
inline void touch() { gil_state &g = gil_state::get(); if (g.checked) sx::check(g.depth > 0, "a Python object is only used while the GIL is held"); }
struct gil_scoped_acquire { gil_scoped_acquire() { gil_state::get().depth++; } ~gil_scoped_acquire() { gil_state::get().depth--; } };
struct gil_scoped_release { int d; gil_scoped_release() : d(gil_state::get().depth) { gil_state::get().depth = 0; } ~gil_scoped_release() { gil_state::get().depth = d; } };
struct any_container
{
  std::vector<ssize_t> v;
  any_container() {}
  template <class T> any_container(const std::initializer_list<T> &l) { for (auto x : l) v.push_back((ssize_t)x); }
  template <class T> any_container(const std::vector<T> &l) { for (auto x : l) v.push_back((ssize_t)x); }
};
struct buffer_info { void *ptr = nullptr; ssize_t itemsize = 0; std::string format; ssize_t ndim = 0; std::vector<ssize_t> shape, strides; ssize_t size = 0; bool readonly = false;
  buffer_info() {}
  buffer_info(void *p, ssize_t is, const std::string &f, ssize_t nd, any_container sh, any_container st, bool ro = false) : ptr(p), itemsize(is), format(f), ndim(nd), shape(sh.v), strides(st.v), readonly(ro) { size = 1; for (auto x : shape) size *= x; } };
template <class T> struct format_descriptor { static std::string format() { return std::string(1, "?bBhHiIqQ.fd"[std::is_floating_point<T>::value ? (sizeof(T) == 4 ? 10 : 11) : sizeof(T) == 1 ? 1 + std::is_unsigned<T>::value : sizeof(T) == 2 ? 3 + std::is_unsigned<T>::value : sizeof(T) == 4 ? 5 + std::is_unsigned<T>::value : 7 + std::is_unsigned<T>::value]); } };
struct slice { ssize_t a, b, c; slice(ssize_t x, ssize_t y, ssize_t z) : a(x), b(y), c(z) {} };
struct handle {};
struct none {};
struct capsule { std::shared_ptr<void> h; capsule() {} capsule(void *p, void (*d)(void *)) : h(p, d) {} };
// a numpy array: a view with strides of memory it keeps alive
class array
{
public:
  enum { c_style = 1, f_style = 2, forcecast = 16 };
  std::shared_ptr<void> own_;
  char *p_ = nullptr;
  ssize_t isz_ = 1;
  std::vector<ssize_t> sh_, st_;
  array() { sh_.push_back(0); st_.push_back(1); }
  array(const array &o) : own_(o.own_), p_(o.p_), isz_(o.isz_), sh_(o.sh_), st_(o.st_) { if (own_) touch(); }
  array(array &&o) noexcept : own_(std::move(o.own_)), p_(o.p_), isz_(o.isz_), sh_(std::move(o.sh_)), st_(std::move(o.st_)) {}
  array &operator=(const array &o) { if (own_ || o.own_) touch(); own_ = o.own_; p_ = o.p_; isz_ = o.isz_; sh_ = o.sh_; st_ = o.st_; return *this; }
  array &operator=(array &&o) { if (own_) touch(); own_ = std::move(o.own_); p_ = o.p_; isz_ = o.isz_; sh_ = std::move(o.sh_); st_ = std::move(o.st_); return *this; }
  ~array() { if (own_) touch(); }
  // with a base the array is a view, otherwise a copy
  template <class T> array(ssize_t n, const T *p) { copyFrom<T>(n, p); }
  template <class T> array(ssize_t n, const T *p, const capsule &c) : own_(c.h), p_((char *)p), isz_(sizeof(T)) { touch(); sh_.push_back(n); st_.push_back(sizeof(T)); }
  template <class T> array(any_container sh, const T *p, const capsule &c) : own_(c.h), p_((char *)p), isz_(sizeof(T)), sh_(sh.v) { touch(); cStrides(); }
  template <class T> void copyFrom(ssize_t n, const T *p)
  {
    touch();
    T *q = new T[n ? n : 1];
    own_ = std::shared_ptr<void>((void *)q, [](void *x) { delete[](T *) x; });
    for (ssize_t i = 0; i < n; ++i) q[i] = p[i];
    p_ = (char *)q; isz_ = sizeof(T); sh_.assign(1, n); st_.assign(1, (ssize_t)sizeof(T));
  }
  void cStrides() { st_.assign(sh_.size(), isz_); for (size_t i = sh_.size(); i-- > 1;) st_[i - 1] = st_[i] * sh_[i]; }
  bool contiguous() const
  {
    ssize_t e = isz_;
    for (size_t i = sh_.size(); i-- > 0;) { if (sh_[i] != 1 && st_[i] != e) return false; e *= sh_[i]; }
    return true;
  }
  void makeContiguous()
  {
    if (contiguous()) return;
    ssize_t n = size();
    char *q = new char[(n ? n : 1) * isz_];
    std::shared_ptr<void> o((void *)q, [](void *x) { delete[](char *) x; });
    std::vector<ssize_t> ix(sh_.size(), 0);
    for (ssize_t k = 0; k < n; ++k) {
      ssize_t off = 0;
      for (size_t d = 0; d < sh_.size(); ++d) off += ix[d] * st_[d];
      std::memcpy(q + k * isz_, p_ + off, isz_);
      for (size_t d = sh_.size(); d-- > 0;) { if (++ix[d] < sh_[d]) break; ix[d] = 0; }
    }
    own_ = o; p_ = q; cStrides();
  }
  ssize_t size() const { ssize_t n = 1; for (auto s : sh_) n *= s; return n; }
  ssize_t itemsize() const { return isz_; }
  ssize_t nbytes() const { return size() * isz_; }
  ssize_t ndim() const { return (ssize_t)sh_.size(); }
  const ssize_t *shape() const { return sh_.data(); }
  ssize_t shape(ssize_t i) const { return sh_[i]; }
  const ssize_t *strides() const { return st_.data(); }
  ssize_t strides(ssize_t i) const { return st_[i]; }
  void *mutable_data() { return p_; }
  const void *data() const { return p_; }
  buffer_info request(bool = false) const { touch(); buffer_info b; b.ptr = (void *)p_; b.itemsize = isz_; b.shape = sh_; b.strides = st_; b.size = size(); b.ndim = ndim(); return b; }
};
template <class T, int F = array::forcecast> class array_t : public array
{
public:
  array_t() { isz_ = sizeof(T); st_.assign(1, isz_); }
  array_t(const array &a) : array(a) { conv(); }
  array_t(array &&a) : array(std::move(a)) { conv(); }
  template <int G> array_t(const array_t<T, G> &a) : array(a) { conv(); }
  explicit array_t(any_container sh) { touch(); isz_ = sizeof(T); sh_ = sh.v; cStrides(); T *q = new T[size() ? size() : 1](); own_ = std::shared_ptr<void>((void *)q, [](void *x) { delete[](T *) x; }); p_ = (char *)q; }
  array_t(ssize_t n, const T *p) { copyFrom<T>(n, p); }
  array_t(ssize_t n, const T *p, const capsule &c) : array(n, p, c) {}
  void conv() { if (own_ || p_) sx::check(isz_ == (ssize_t)sizeof(T), "arrays here have the element type asked for"); if (F & c_style) makeContiguous(); }
  template <class... I> ssize_t off(I... i) const { ssize_t o = 0; size_t d = 0; (void)std::initializer_list<int>{ (o += (ssize_t)i * st_[d++], 0)... }; return o; }
  template <class... I> const T *data(I... i) const { return (const T *)(p_ + off(i...)); }
  template <class... I> T *mutable_data(I... i) { return (T *)(p_ + off(i...)); }
  template <class... I> const T &at(I... i) const { return *data(i...); }
  struct acc { const array_t *a; template <class... I> const T &operator()(I... i) const { return *a->data(i...); } ssize_t shape(ssize_t i) const { return a->shape(i); } };
  template <ssize_t N = -1> acc unchecked() const { return acc{ this }; }
};
// a data set: only obj.attr("__getitem__")(slice) is modelled
struct dataset_base { virtual array get(const slice &) = 0; virtual ~dataset_base() {} };
struct attr_accessor
{
  std::shared_ptr<dataset_base> d;
  array operator()(const slice &s) const { touch(); return d->get(s); }
};
class object
{
public:
  std::shared_ptr<dataset_base> d_;
  object() {}
  object(std::shared_ptr<dataset_base> d) : d_(d) {}
  attr_accessor attr(const char *) const { touch(); return attr_accessor{ d_ }; }
  array operator[](const slice &s) const { touch(); return d_->get(s); }
};
// bindings
struct buffer_protocol {};
template <class... A> struct init {};
template <class... G> struct call_guard {};
struct arg { arg(const char *) {} template <class T> arg &operator=(T &&) { return *this; } };
struct class_info { std::map<std::string, std::function<void *(void *)>> fields; std::function<buffer_info(void *)> buffer; };
template <class T> class_info &info() { static class_info c; return c; }
// a harness may specialize this to get at registered functions
template <class F> struct def_hook { static void run(const char *, F) {} };
// a lambda is registered as the function its call operator amounts to
template <class M> struct mem_sig {};
template <class R, class C, class... A> struct mem_sig<R (C::*)(A...) const> { typedef R (*type)(A...); };
template <class R, class C, class... A> struct mem_sig<R (C::*)(A...)> { typedef R (*type)(A...); };
template <class F> auto def_sig(int) -> typename mem_sig<decltype(&F::operator())>::type;
template <class F> F def_sig(...);
struct module_
{
  template <class S, class F> static typename std::enable_if<std::is_convertible<F, S>::value>::type hook(const char *n, F f) { def_hook<S>::run(n, f); }
  template <class S, class F> static typename std::enable_if<!std::is_convertible<F, S>::value>::type hook(const char *, F) {}
  template <class F, class... X> module_ &def(const char *n, F f, X &&...) { hook<decltype(def_sig<F>(0))>(n, f); return *this; }
};
typedef module_ module;
template <class T, class... O> struct class_
{
  template <class S, class... X> class_(S &&, const char *, X &&...) {}
  template <class... X> class_ &def(X &&...) { return *this; }
  template <class M, class C> class_ &def_readonly(const char *n, M C::*m) { info<T>().fields[n] = [m](void *o) { return (void *)&(((C *)(T *)o)->*m); }; return *this; }
  template <class M, class C> class_ &def_readwrite(const char *n, M C::*m) { return def_readonly(n, m); }
  template <class F> class_ &def_buffer(F f) { info<T>().buffer = [f](void *o) { return f(*(T *)o); }; return *this; }
};
template <class E> struct enum_
{
  template <class S> enum_(S &&, const char *) {}
  enum_ &value(const char *, E) { return *this; }
  enum_ &export_values() { return *this; }
};
}
#define PYBIND11_MODULE(name, m) void pybind11_init_##name(pybind11::module_ &m)
