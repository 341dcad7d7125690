// The part of the HDF5 C library that h5cpp uses, in memory: groups, data sets of fixed size, hyperslabs, attributes.
// Only for the symbolic build; native replays use the real library.
#pragma once
#include <cstring>
#include <string>
#include <vector>
#include <hdf5.h>
namespace sxh5 {
struct Data
{
  std::string path, name; // name: of an attribute
  hid_t type = 0;
  std::vector<hsize_t> dims;
  std::vector<char> bytes;
  bool group = false;
};
struct File { std::string path; std::vector<Data *> objects, attrs; };
struct Handle
{
  enum Kind { Closed, F, G, D, S, A, T, P } kind = Closed;
  File *file = nullptr;
  Data *data = nullptr;
  std::string path;
  std::vector<hsize_t> dims, start, count;
  bool selected = false;
  hid_t type = 0;
};
inline std::vector<File *> &files() { static std::vector<File *> *v = new std::vector<File *>; return *v; }
inline std::vector<Handle *> &handles() { static std::vector<Handle *> *v = new std::vector<Handle *>; return *v; }
static const hid_t BASE = 1000;
inline Handle *get(hid_t id, Handle::Kind k)
{
  size_t i = (size_t)(id - BASE);
  if (id < BASE || i >= handles().size() || handles()[i]->kind != k) return nullptr;
  return handles()[i];
}
inline hid_t add(Handle *h) { handles().push_back(h); return BASE + (hid_t)handles().size() - 1; }
inline herr_t drop(hid_t id, Handle::Kind k) { Handle *h = get(id, k); if (!h) return -1; h->kind = Handle::Closed; return 0; }
inline int open() { int n = 0; for (auto *h : handles()) n += h->kind != Handle::Closed; return n; }
inline size_t width(hid_t t);
inline size_t product(const std::vector<hsize_t> &d) { size_t n = 1; for (auto x : d) n *= x; return n; }
inline std::string join(const std::string &a, const std::string &b) { if (b.size() && b[0] == '/') return b; return a == "/" ? "/" + b : a + "/" + b; }
inline Data *find(File *f, const std::string &p) { for (auto *o : f->objects) if (o->path == p) return o; return nullptr; }
inline File *fileOf(hid_t id, std::string &base)
{
  if (Handle *h = get(id, Handle::F)) { base = "/"; return h->file; }
  if (Handle *h = get(id, Handle::G)) { base = h->path; return h->file; }
  if (Handle *h = get(id, Handle::D)) { base = h->path; return h->file; }
  return nullptr;
}
// element (row-major) offsets of the selected block, one contiguous run of the last axis at a time
template <class Fn> herr_t runs(const std::vector<hsize_t> &dims, const Handle *sel, size_t w, Fn fn)
{
  size_t n = dims.size();
  if (!sel || !sel->selected) { fn((size_t)0, (size_t)0, product(dims) * w); return 0; }
  for (size_t i = 0; i < n; ++i) if (sel->start[i] + sel->count[i] > dims[i] || sel->start[i] + sel->count[i] < sel->start[i]) return -1;
  size_t k = n; // axes [k, n) are selected completely
  while (k > 0 && sel->start[k - 1] == 0 && sel->count[k - 1] == dims[k - 1]) --k;
  size_t run = w;
  for (size_t i = k; i < n; ++i) run *= dims[i];
  if (k > 0) { --k; run *= sel->count[k]; }
  size_t blocks = 1;
  for (size_t i = 0; i < k; ++i) blocks *= sel->count[i];
  for (size_t b = 0; b < blocks; ++b) {
    std::vector<size_t> idx(n, 0);
    size_t r = b;
    for (size_t i = k; i-- > 0;) { idx[i] = r % sel->count[i]; r /= sel->count[i]; }
    size_t off = 0;
    for (size_t i = 0; i < n; ++i) off = off * dims[i] + sel->start[i] + idx[i];
    fn(off * w, b * run, run);
  }
  return 0;
}
} // namespace sxh5
#define SXH5_TYPES(X) X(STD_I8LE, 1) X(NATIVE_SCHAR, 1) X(STD_I16LE, 2) X(NATIVE_SHORT, 2) X(STD_I32LE, 4) X(NATIVE_INT, 4) X(STD_I64LE, 8) X(NATIVE_LLONG, 8) \
  X(STD_U8LE, 1) X(NATIVE_UCHAR, 1) X(STD_U16LE, 2) X(NATIVE_USHORT, 2) X(STD_U32LE, 4) X(NATIVE_UINT, 4) X(STD_U64LE, 8) X(NATIVE_ULLONG, 8) \
  X(IEEE_F32LE, 4) X(NATIVE_FLOAT, 4) X(IEEE_F64LE, 8) X(NATIVE_DOUBLE, 8) X(C_S1, 1) \
  X(NATIVE_INT8, 1) X(NATIVE_UINT8, 1) X(NATIVE_INT16, 2) X(NATIVE_UINT16, 2) X(NATIVE_INT32, 4) X(NATIVE_UINT32, 4) X(NATIVE_INT64, 8) X(NATIVE_UINT64, 8) X(NATIVE_LONG, 8) X(NATIVE_ULONG, 8)
enum { SXH5_E0 = 100,
#define X(n, w) SXH5_##n,
SXH5_TYPES(X)
#undef X
};
extern "C" {
#define X(n, w) hid_t H5T_##n##_g = SXH5_##n;
SXH5_TYPES(X)
#undef X
hid_t H5P_CLS_DATASET_CREATE_ID_g = 99;
herr_t H5open(void) { return 0; }
herr_t H5check_version(unsigned, unsigned, unsigned) { return 0; }
}
namespace sxh5 {
inline size_t width(hid_t t)
{
  switch (t) {
#define X(n, w) case SXH5_##n: return w;
SXH5_TYPES(X)
#undef X
  }
  return 0;
}
// signed, unsigned or floating; only types of the same class and width are converted (by copying)
inline int cls(hid_t t)
{
  switch (t) {
    case SXH5_IEEE_F32LE: case SXH5_NATIVE_FLOAT: case SXH5_IEEE_F64LE: case SXH5_NATIVE_DOUBLE: return 2;
    case SXH5_C_S1: return 3;
    case SXH5_STD_U8LE: case SXH5_STD_U16LE: case SXH5_STD_U32LE: case SXH5_STD_U64LE: case SXH5_NATIVE_UCHAR: case SXH5_NATIVE_USHORT: case SXH5_NATIVE_UINT: case SXH5_NATIVE_ULLONG:
    case SXH5_NATIVE_UINT8: case SXH5_NATIVE_UINT16: case SXH5_NATIVE_UINT32: case SXH5_NATIVE_UINT64: case SXH5_NATIVE_ULONG: return 1;
  }
  return 0;
}
inline bool same(hid_t a, hid_t b) { return width(a) == width(b) && cls(a) == cls(b); }
} // namespace sxh5
extern "C" {
using namespace sxh5;
static hid_t sxh5_file(const char *p)
{
  for (auto *f : files()) if (f->path == p) { Handle *h = new Handle; h->kind = Handle::F; h->file = f; return add(h); }
  return -1;
}
hid_t H5Fcreate(const char *p, unsigned, hid_t, hid_t)
{
  for (auto *f : files()) if (f->path == p) f->path = "";
  File *f = new File; f->path = p; files().push_back(f);
  Data *g = new Data; g->path = "/"; g->group = true; f->objects.push_back(g);
  return sxh5_file(p);
}
hid_t H5Fopen(const char *p, unsigned, hid_t) { return sxh5_file(p); }
herr_t H5Fclose(hid_t f) { return drop(f, Handle::F); }
static hid_t sxh5_child(hid_t loc, const char *name, bool group)
{
  std::string base; File *f = fileOf(loc, base);
  if (!f) return -1;
  Data *d = find(f, join(base, name));
  if (!d || d->group != group) return -1;
  Handle *h = new Handle; h->kind = group ? Handle::G : Handle::D; h->file = f; h->data = d; h->path = d->path;
  return add(h);
}
hid_t H5Gopen2(hid_t loc, const char *name, hid_t) { return sxh5_child(loc, name, true); }
hid_t H5Dopen2(hid_t loc, const char *name, hid_t) { return sxh5_child(loc, name, false); }
herr_t H5Gclose(hid_t g) { return drop(g, Handle::G); }
herr_t H5Dclose(hid_t d) { return drop(d, Handle::D); }
static Data *sxh5_make(hid_t loc, const char *name)
{
  std::string base; File *f = fileOf(loc, base);
  if (!f) return nullptr;
  std::string p = join(base, name), parent = p.substr(0, p.rfind('/'));
  if (find(f, p) || !find(f, parent.empty() ? "/" : parent)) return nullptr;
  Data *d = new Data; d->path = p; f->objects.push_back(d);
  return d;
}
hid_t H5Gcreate2(hid_t loc, const char *name, hid_t, hid_t, hid_t)
{
  Data *d = sxh5_make(loc, name);
  if (!d) return -1;
  d->group = true;
  return sxh5_child(loc, name, true);
}
hid_t H5Pcreate(hid_t) { Handle *h = new Handle; h->kind = Handle::P; return add(h); }
herr_t H5Pset_chunk(hid_t p, int n, const hsize_t *d)
{
  Handle *h = get(p, Handle::P);
  if (!h) return -1;
  for (int i = 0; i < n; ++i) if (d[i] == 0) return -1;
  h->dims.assign(d, d + n);
  return 0;
}
herr_t H5Pclose(hid_t p) { return p == H5P_DEFAULT ? -1 : drop(p, Handle::P); }
hid_t H5Screate_simple(int n, const hsize_t *d, const hsize_t *)
{
  Handle *h = new Handle; h->kind = Handle::S; h->dims.assign(d, d + n);
  return add(h);
}
herr_t H5Sclose(hid_t s) { return drop(s, Handle::S); }
herr_t H5Sselect_hyperslab(hid_t s, H5S_seloper_t op, const hsize_t *start, const hsize_t *stride, const hsize_t *count, const hsize_t *block)
{
  Handle *h = get(s, Handle::S);
  if (!h || op != H5S_SELECT_SET || block) return -1;
  size_t n = h->dims.size();
  for (size_t i = 0; stride && i < n; ++i) if (stride[i] != 1) return -1;
  h->start.assign(start, start + n); h->count.assign(count, count + n); h->selected = true;
  return 0;
}
int H5Sget_simple_extent_ndims(hid_t s) { Handle *h = get(s, Handle::S); return h ? (int)h->dims.size() : -1; }
int H5Sget_simple_extent_dims(hid_t s, hsize_t *d, hsize_t *)
{
  Handle *h = get(s, Handle::S);
  if (!h) return -1;
  for (size_t i = 0; i < h->dims.size(); ++i) d[i] = h->dims[i];
  return (int)h->dims.size();
}
hid_t H5Dcreate2(hid_t loc, const char *name, hid_t type, hid_t space, hid_t, hid_t dcpl, hid_t)
{
  Handle *s = get(space, Handle::S), *p = get(dcpl, Handle::P);
  if (!s || !width(type)) return -1;
  if (p && p->dims.size()) {
    if (p->dims.size() != s->dims.size()) return -1;
    for (size_t i = 0; i < s->dims.size(); ++i) if (p->dims[i] > s->dims[i]) return -1;
  }
  Data *d = sxh5_make(loc, name);
  if (!d) return -1;
  d->type = type; d->dims = s->dims; d->bytes.resize(product(d->dims) * width(type));
  return sxh5_child(loc, name, false);
}
hid_t H5Dget_space(hid_t id)
{
  Handle *d = get(id, Handle::D);
  if (!d) return -1;
  Handle *h = new Handle; h->kind = Handle::S; h->dims = d->data->dims;
  return add(h);
}
hid_t H5Dget_type(hid_t id)
{
  Handle *d = get(id, Handle::D);
  if (!d) return -1;
  Handle *h = new Handle; h->kind = Handle::T; h->type = d->data->type;
  return add(h);
}
static herr_t sxh5_xfer(hid_t id, hid_t type, hid_t ms, hid_t fs, char *p, bool write)
{
  Handle *d = get(id, Handle::D), *m = get(ms, Handle::S), *f = get(fs, Handle::S);
  if (!d || !same(type, d->data->type) || (ms != H5S_ALL && !m) || (fs != H5S_ALL && !f) || (m && m->selected)) return -1;
  size_t want = f && f->selected ? product(f->count) : product(d->data->dims);
  if (m && product(m->dims) != want) return -1;
  return runs(d->data->dims, f, width(type), [&](size_t fo, size_t mo, size_t n) {
    if (!n) return;
    if (write) memcpy(d->data->bytes.data() + fo, p + mo, n); else memcpy(p + mo, d->data->bytes.data() + fo, n);
  });
}
herr_t H5Dwrite(hid_t id, hid_t type, hid_t ms, hid_t fs, hid_t, const void *p) { return sxh5_xfer(id, type, ms, fs, (char *)p, true); }
herr_t H5Dread(hid_t id, hid_t type, hid_t ms, hid_t fs, hid_t, void *p) { return sxh5_xfer(id, type, ms, fs, (char *)p, false); }
static hid_t sxh5_attr(File *f, const std::string &p, const char *name)
{
  for (auto *a : f->attrs) if (a->path == p && a->name == name) { Handle *h = new Handle; h->kind = Handle::A; h->file = f; h->data = a; return add(h); }
  return -1;
}
hid_t H5Acreate2(hid_t loc, const char *name, hid_t type, hid_t space, hid_t, hid_t)
{
  std::string base; File *f = fileOf(loc, base); Handle *s = get(space, Handle::S);
  if (!f || !s || sxh5_attr(f, base, name) >= 0) return -1;
  Data *a = new Data; a->path = base; a->name = name; a->type = type; a->dims = s->dims; a->bytes.resize(product(a->dims) * width(type));
  f->attrs.push_back(a);
  return sxh5_attr(f, base, name);
}
htri_t H5Aexists_by_name(hid_t loc, const char *o, const char *name, hid_t)
{
  std::string base; File *f = fileOf(loc, base);
  if (!f) return -1;
  for (auto *a : f->attrs) if (a->path == join(base, o) && a->name == name) return 1;
  return 0;
}
hid_t H5Aopen_by_name(hid_t loc, const char *o, const char *name, hid_t, hid_t)
{
  std::string base; File *f = fileOf(loc, base);
  return f ? sxh5_attr(f, join(base, o), name) : -1;
}
hid_t H5Aget_type(hid_t id)
{
  Handle *a = get(id, Handle::A);
  if (!a) return -1;
  Handle *h = new Handle; h->kind = Handle::T; h->type = a->data->type;
  return add(h);
}
static herr_t sxh5_axfer(hid_t id, hid_t type, char *p, bool write)
{
  Handle *a = get(id, Handle::A);
  if (!a || !same(type, a->data->type)) return -1;
  auto &b = a->data->bytes;
  if (write) memcpy(b.data(), p, b.size()); else memcpy(p, b.data(), b.size());
  return 0;
}
herr_t H5Awrite(hid_t id, hid_t type, const void *p) { return sxh5_axfer(id, type, (char *)p, true); }
herr_t H5Aread(hid_t id, hid_t type, void *p) { return sxh5_axfer(id, type, (char *)p, false); }
herr_t H5Aclose(hid_t id) { return drop(id, Handle::A); }
static hid_t sxh5_type(hid_t t) { Handle *h = get(t, Handle::T); return h ? h->type : t; }
htri_t H5Tequal(hid_t a, hid_t b) { a = sxh5_type(a); b = sxh5_type(b); return width(a) && width(b) ? same(a, b) : -1; }
herr_t H5Tclose(hid_t id) { return drop(id, Handle::T); }
herr_t H5Oget_info_by_name(hid_t loc, const char *name, H5O_info_t *info, hid_t)
{
  std::string base; File *f = fileOf(loc, base);
  if (!f) return -1;
  Data *d = find(f, join(base, name));
  if (!d) return -1;
  memset(info, 0, sizeof *info);
  info->type = d->group ? H5O_TYPE_GROUP : H5O_TYPE_DATASET;
  for (auto *a : f->attrs) info->num_attrs += a->path == d->path;
  return 0;
}
herr_t H5Eget_auto2(hid_t, H5E_auto2_t *f, void **d) { *f = nullptr; *d = nullptr; return 0; }
herr_t H5Eset_auto2(hid_t, H5E_auto2_t, void *) { return 0; }
}
