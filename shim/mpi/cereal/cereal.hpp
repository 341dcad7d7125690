// The part of cereal stempy uses (the submodule is empty in this checkout):
// binary archives of numbers, vectors, arrays, maps and types with serialize or
// save/load members or free functions.  Same layout: sizes as 64-bit numbers.
#pragma once
#include <array>
#include <cstdint>
#include <istream>
#include <map>
#include <ostream>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>
namespace cereal {
struct Exception : public std::runtime_error { using std::runtime_error::runtime_error; };
enum class specialization { member_serialize, member_load_save, member_load_save_minimal, non_member_load_save, non_member_serialize };
template <class A, class T, specialization S> struct specialize {};
class BinaryOutputArchive;
class BinaryInputArchive;
namespace d {
template <class...> using vt = void;
struct hi {};
struct lo { lo(hi) {} };
template <class A, class T> auto memSave(A &a, const T &t, hi) -> decltype(t.save(a), void()) { t.save(a); }
template <class A, class T> auto memSave(A &a, const T &t, lo) -> decltype(const_cast<T &>(t).serialize(a), void()) { const_cast<T &>(t).serialize(a); }
template <class A, class T> auto memLoad(A &a, T &t, hi) -> decltype(t.load(a), void()) { t.load(a); }
template <class A, class T> auto memLoad(A &a, T &t, lo) -> decltype(t.serialize(a), void()) { t.serialize(a); }
template <class A, class T, class = void> struct hasMember : std::false_type {};
template <class A, class T> struct hasMember<A, T, vt<decltype(memSave(std::declval<A &>(), std::declval<const T &>(), hi()))>> : std::true_type {};
}
class BinaryOutputArchive
{
  std::ostream &s;

public:
  BinaryOutputArchive(std::ostream &s_) : s(s_) {}
  void saveBinary(const void *p, std::streamsize n) { s.write((const char *)p, n); }
  template <class... T> BinaryOutputArchive &operator()(T &&...t) { int x[] = { (one(t), 0)... }; (void)x; return *this; }
  template <class T> typename std::enable_if<std::is_arithmetic<T>::value>::type one(const T &t) { saveBinary(&t, sizeof t); }
  template <class T> void one(const std::vector<T> &v) { one((uint64_t)v.size()); for (auto &x : v) one(x); }
  template <class T, size_t N> void one(const std::array<T, N> &v) { for (auto &x : v) one(x); }
  template <class K, class V> void one(const std::map<K, V> &m) { one((uint64_t)m.size()); for (auto &x : m) { one(x.first); one(x.second); } }
  template <class T> typename std::enable_if<!std::is_arithmetic<T>::value && d::hasMember<BinaryOutputArchive, T>::value>::type one(const T &t) { d::memSave(*this, t, d::hi()); }
  template <class T> typename std::enable_if<!std::is_arithmetic<T>::value && !d::hasMember<BinaryOutputArchive, T>::value>::type one(const T &t) { save(*this, t); }
};
class BinaryInputArchive
{
  std::istream &s;

public:
  BinaryInputArchive(std::istream &s_) : s(s_) {}
  void loadBinary(void *p, std::streamsize n)
  {
    s.read((char *)p, n);
    if (s.gcount() != n) throw Exception("Failed to read bytes from input stream");
  }
  template <class... T> BinaryInputArchive &operator()(T &&...t) { int x[] = { (one(t), 0)... }; (void)x; return *this; }
  template <class T> typename std::enable_if<std::is_arithmetic<T>::value>::type one(T &t) { loadBinary(&t, sizeof t); }
  template <class T> void one(std::vector<T> &v) { uint64_t n; one(n); v.resize(n); for (auto &x : v) one(x); }
  template <class T, size_t N> void one(std::array<T, N> &v) { for (auto &x : v) one(x); }
  template <class K, class V> void one(std::map<K, V> &m)
  {
    uint64_t n; one(n); m.clear();
    for (uint64_t i = 0; i < n; ++i) { K k; one(k); V v; one(v); m.emplace_hint(m.end(), std::move(k), std::move(v)); }
  }
  template <class T> typename std::enable_if<!std::is_arithmetic<T>::value && d::hasMember<BinaryOutputArchive, T>::value>::type one(T &t) { d::memLoad(*this, t, d::hi()); }
  template <class T> typename std::enable_if<!std::is_arithmetic<T>::value && !d::hasMember<BinaryOutputArchive, T>::value>::type one(T &t) { load(*this, t); }
};
}
