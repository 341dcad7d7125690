#include "sx_ios.h"
// libstdc++ declares std::string extern: give its member functions a body here
#include <string>
template class std::basic_string<char>;

namespace sxm {
MemFile *g_files = nullptr;
MemFile *findFile(const char *name)
{
  for (MemFile *f = g_files; f; f = f->next)
    if (f->name == name) return f;
  return nullptr;
}
}
namespace std {
ostream cout, cerr, clog;
istream cin;
}
// string to number conversion (libc)
#include <limits.h>
extern "C" {
static int sx_errno;
int *__errno_location() noexcept { return &sx_errno; }
static long sx_strtol(const char *s, char **end, int base)
{
  const char *p = s;
  while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
  bool neg = *p == '-';
  if (*p == '-' || *p == '+') ++p;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false, over = false;
  for (;; ++p) {
    int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99;
    if (d >= base) break;
    any = true;
    if (v > (LONG_MAX - d) / (unsigned long)base) over = true;
    v = v * base + d;
  }
  if (end) *end = (char *)(any ? p : s);
  if (over) { sx_errno = 34; return neg ? LONG_MIN : LONG_MAX; }
  return neg ? -(long)v : (long)v;
}
long strtol(const char *s, char **e, int b) noexcept { return sx_strtol(s, e, b); }
long long strtoll(const char *s, char **e, int b) noexcept { return sx_strtol(s, e, b); }
// glibc's C2X names of the same functions
static unsigned long sx_strtoul(const char *s, char **end, int base)
{
  const char *p = s;
  while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
  bool neg = *p == '-';
  if (*p == '-' || *p == '+') ++p;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false, over = false;
  for (;; ++p) {
    int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99;
    if (d >= base) break;
    any = true;
    if (v > (ULONG_MAX - d) / (unsigned long)base) over = true;
    v = v * base + d;
  }
  if (end) *end = (char *)(any ? p : s);
  if (over) { sx_errno = 34; return ULONG_MAX; }
  return neg ? -v : v;
}
unsigned long strtoul(const char *s, char **e, int b) noexcept { return sx_strtoul(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) noexcept { return sx_strtoul(s, e, b); }
// decimal numbers without an exponent
double strtod(const char *s, char **e) noexcept
{
  const char *p = s;
  while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
  bool neg = *p == '-', any = false;
  if (*p == '-' || *p == '+') ++p;
  double v = 0, f = 1;
  for (; *p >= '0' && *p <= '9'; ++p) { v = v * 10 + (*p - '0'); any = true; }
  if (*p == '.') for (++p; *p >= '0' && *p <= '9'; ++p) { v = v * 10 + (*p - '0'); f *= 10; any = true; }
  if (e) *e = (char *)(any ? p : s);
  return neg ? -(v / f) : v / f;
}
float strtof(const char *s, char **e) noexcept { return (float)strtod(s, e); }
}
