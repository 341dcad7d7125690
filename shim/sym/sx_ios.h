// Stream library model used by the symbolic build only: input files live in
// memory (registered by the harness), output is discarded.  The native replay
// uses the real libstdc++ streams and real files, which cross-checks the model.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <iosfwd>
#include <string>
#include <memory>
#include <utility>
#include <vector>
#include <algorithm>
#include <bits/postypes.h>
#ifndef EOF
#define EOF (-1)
#endif

namespace sxm {
struct MemFile { std::string name; std::vector<char> data; size_t visible; MemFile *next; };
extern MemFile *g_files;
struct MemFile *findFile(const char *name);
}

namespace std {
enum _Ios_Openmode_sx { };
class ios_base
{
public:
  typedef unsigned openmode;
  typedef unsigned iostate;
  typedef int seekdir;
  typedef unsigned fmtflags;
  static const openmode in = 1, out = 2, binary = 4, ate = 8, app = 16, trunc = 32;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const seekdir beg = 0, cur = 1, end = 2;
  static const fmtflags dec = 0, hex = 1, fixed = 2, scientific = 4, left = 8, right = 16;
  class Init {};
  struct failure {};
  ios_base() {}
  ios_base(const ios_base &) = delete;
  streamsize precision(streamsize) { return 6; }
  streamsize precision() const { return 6; }
  streamsize width(streamsize) { return 0; }
  fmtflags flags() const { return 0; }
  fmtflags flags(fmtflags) { return 0; }
  fmtflags setf(fmtflags) { return 0; }
};
template <> class basic_ios<char, char_traits<char>> : public ios_base
{
public:
  iostate st_ = 0;
  iostate exc_ = 0;
  bool good() const { return st_ == 0; }
  bool eof() const { return (st_ & eofbit) != 0; }
  bool fail() const { return (st_ & (failbit | badbit)) != 0; }
  bool bad() const { return (st_ & badbit) != 0; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  iostate rdstate() const { return st_; }
  void clear(iostate s = 0) { st_ = s; }
  void setstate(iostate s) { st_ |= s; }
  char fill(char c) { return c; }
  virtual ~basic_ios() {}
};
typedef basic_ios<char> ios;

template <> class basic_streambuf<char, char_traits<char>>
{
  char *eb_ = nullptr, *g_ = nullptr, *eg_ = nullptr, *bp_ = nullptr, *p_ = nullptr, *ep_ = nullptr;

public:
  typedef char char_type;
  typedef int int_type;
  typedef char_traits<char> traits_type;
  basic_streambuf() {}
  virtual ~basic_streambuf() {}
  streamsize sputn(const char *s, streamsize n)
  {
    streamsize done = 0;
    while (done < n) {
      streamsize room = ep_ - p_;
      if (room > 0) {
        streamsize k = room < n - done ? room : n - done;
        memcpy(p_, s + done, k);
        p_ += k;
        done += k;
      } else if (overflow((unsigned char)s[done]) == EOF) break;
      else ++done;
    }
    return done;
  }
  streamsize sgetn(char *s, streamsize n)
  {
    streamsize left = eg_ - g_, k = left < n ? left : n;
    if (k > 0) memcpy(s, g_, k);
    g_ += k > 0 ? k : 0;
    return k > 0 ? k : 0;
  }
  int sgetc() { return g_ < eg_ ? (unsigned char)*g_ : EOF; }

protected:
  void setg(char *a, char *b, char *c) { eb_ = a; g_ = b; eg_ = c; }
  void setp(char *a, char *b) { bp_ = p_ = a; ep_ = b; }
  char *eback() const { return eb_; }
  char *gptr() const { return g_; }
  char *egptr() const { return eg_; }
  char *pbase() const { return bp_; }
  char *pptr() const { return p_; }
  char *epptr() const { return ep_; }
  void pbump(int n) { p_ += n; }
  void gbump(int n) { g_ += n; }
  virtual int_type overflow(int_type) { return EOF; }
};
template <> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char>
{
  basic_streambuf<char> *sb_ = nullptr;

public:
  basic_ostream() {}
  explicit basic_ostream(basic_streambuf<char> *sb) : sb_(sb) {}
  template <class T> basic_ostream &operator<<(const T &) { return *this; }
  basic_ostream &operator<<(const string &) { return *this; }
  basic_ostream &operator<<(const char *) { return *this; }
  basic_ostream &operator<<(basic_ostream &(*)(basic_ostream &)) { return *this; }
  basic_ostream &write(const char *p, streamsize n) { if (sb_ && sb_->sputn(p, n) != n) setstate(badbit); return *this; }
  basic_ostream &put(char) { return *this; }
  basic_ostream &flush() { return *this; }
  basic_ostream &operator<<(ios_base &(*)(ios_base &)) { return *this; }
};
template <> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char>
{
  basic_streambuf<char> *sb_ = nullptr;

public:
  basic_istream() {}
  explicit basic_istream(basic_streambuf<char> *sb) : sb_(sb) {}
  sxm::MemFile *f_ = nullptr;
  long long pos_ = 0;
  streamsize gc_ = 0;
  bool open_ = false;
  long long size_() const { return f_ ? (long long)f_->visible : 0; }
  streamsize gcount() const { return gc_; }
  basic_istream &read(char *p, streamsize n)
  {
    gc_ = 0;
    if (!good()) { setstate(failbit); return *this; }
    if (sb_) {
      gc_ = sb_->sgetn(p, n);
      if (gc_ != n) setstate(eofbit | failbit);
      return *this;
    }
    streamsize left = size_() > pos_ ? (streamsize)(size_() - pos_) : 0;
    if (n < 0) n = 0;
    if (left < n) {
      if (left > 0) memcpy(p, f_->data.data() + pos_, left);
      pos_ += left;
      gc_ = left;
      setstate(eofbit | failbit);
    } else {
      if (n > 0) memcpy(p, f_->data.data() + pos_, n);
      pos_ += n;
      gc_ = n;
    }
    return *this;
  }
  int peek()
  {
    gc_ = 0;
    if (!good()) { setstate(failbit); return EOF; }
    if (pos_ >= size_()) { setstate(eofbit); return EOF; }
    return (unsigned char)f_->data[pos_];
  }
  int get()
  {
    gc_ = 0;
    if (!good()) { setstate(failbit); return EOF; }
    if (pos_ >= size_()) { setstate(eofbit | failbit); return EOF; }
    gc_ = 1;
    return (unsigned char)f_->data[pos_++];
  }
  basic_istream &ignore(streamsize n = 1)
  {
    gc_ = 0;
    if (!good()) { setstate(failbit); return *this; }
    long long left = size_() - pos_;
    if (left < n) { pos_ += left > 0 ? left : 0; setstate(eofbit); }
    else pos_ += n;
    return *this;
  }
  basic_istream &seekg(streamoff off, seekdir dir)
  {
    st_ &= ~eofbit;
    if (!good()) { setstate(failbit); return *this; }
    long long b = dir == beg ? 0 : dir == cur ? pos_ : size_();
    if (b + off < 0) setstate(failbit);
    else pos_ = b + off;
    return *this;
  }
  basic_istream &seekg(streampos p)
  {
    st_ &= ~eofbit;
    if (!good()) { setstate(failbit); return *this; }
    long long o = (streamoff)p;
    if (o < 0) setstate(failbit);
    else pos_ = o;
    return *this;
  }
  streampos tellg()
  {
    if (!good()) { setstate(failbit); }
    return fail() ? streampos(-1) : streampos(pos_);
  }
  template <class T> basic_istream &operator>>(T &) { setstate(failbit); return *this; }
};
template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char>, public basic_ostream<char> {};
template <> class basic_ifstream<char, char_traits<char>> : public basic_istream<char>
{
public:
  basic_ifstream() {}
  explicit basic_ifstream(const string &n, openmode m = in) { open(n, m); }
  explicit basic_ifstream(const char *n, openmode m = in) { open(n, m); }
  void open(const string &n, openmode m = in) { open(n.c_str(), m); }
  void open(const char *n, openmode m = in)
  {
    sxm::MemFile *f = open_ ? nullptr : sxm::findFile(n);
    if (!f) { setstate(failbit); return; }
    f_ = f;
    pos_ = (m & ate) ? (long long)f->visible : 0;
    open_ = true;
    clear();
  }
  bool is_open() const { return open_; }
  void close()
  {
    if (!open_) setstate(failbit);
    open_ = false;
    f_ = nullptr;
  }
};
template <> class basic_ofstream<char, char_traits<char>> : public basic_ostream<char>
{
public:
  bool open_ = false;
  basic_ofstream() {}
  explicit basic_ofstream(const string &, openmode = out) : open_(true) {}
  void open(const string &, openmode = out) { open_ = true; }
  bool is_open() const { return open_; }
  void close() { open_ = false; }
};
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char>
{
public:
  basic_ostringstream() {}
  explicit basic_ostringstream(const string &) {}
  string str() const { return string(); }
  void str(const string &) {}
};
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char>
{
public:
  string str() const { return string(); }
};
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char>
{
public:
  explicit basic_istringstream(const string &) {}
};
extern ostream cout, cerr, clog;
extern istream cin;
inline ostream &endl(ostream &o) { return o; }
inline ostream &flush(ostream &o) { return o; }
inline ios_base &hex(ios_base &o) { return o; }
inline ios_base &dec(ios_base &o) { return o; }
inline ios_base &fixed(ios_base &o) { return o; }
inline ios_base &scientific(ios_base &o) { return o; }
struct _SxManip {};
inline _SxManip setw(int) { return {}; }
inline _SxManip setprecision(int) { return {}; }
template <class T> inline _SxManip setfill(T) { return {}; }
inline bool getline(istream &, string &) { return false; }
} // namespace std
