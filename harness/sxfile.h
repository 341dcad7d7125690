// Input files for the readers: in memory (symbolic build) or real files in the
// scratch directory $SX_DIR (native replay).
#pragma once
#include "sx.h"
#include <string>
#ifdef SX_SYM
#include "sx_ios.h"
namespace sxf {
inline std::string path(const char *name) { return std::string("/d/") + name; }
inline void write(const char *name, const void *p, size_t n)
{
  sxm::MemFile *f = new sxm::MemFile;
  f->name = path(name);
  f->data.resize(n);
  if (n) memcpy(f->data.data(), p, n);
  f->visible = n;
  f->next = sxm::g_files;
  sxm::g_files = f;
}
// a large file with few non-zero bytes
struct File
{
  sxm::MemFile *f;
  File(const char *name) { write(name, nullptr, 0); f = sxm::g_files; }
  void resize(size_t n) { f->data.resize(n); f->visible = n; }
  void put(size_t off, const void *p, size_t n) { memcpy(f->data.data() + off, p, n); }
  void close() {}
};
} // namespace sxf
#else
#include <cstdio>
#include <cstdlib>
namespace sxf {
inline std::string path(const char *name)
{
  const char *d = getenv("SX_DIR");
  return std::string(d ? d : ".") + "/" + name;
}
inline void write(const char *name, const void *p, size_t n)
{
  FILE *f = fopen(path(name).c_str(), "wb");
  if (!f) { printf("SX-ERROR cannot write %s\n", path(name).c_str()); exit(3); }
  if (n) fwrite(p, 1, n, f);
  fclose(f);
}
struct File
{
  FILE *f;
  File(const char *name) { f = fopen(path(name).c_str(), "wb"); }
  void resize(size_t n) { fseek(f, (long)n - 1, SEEK_SET); fputc(0, f); }
  void put(size_t off, const void *p, size_t n) { fseek(f, (long)off, SEEK_SET); fwrite(p, 1, n, f); }
  void close() { fclose(f); }
};
} // namespace sxf
#endif
