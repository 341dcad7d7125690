// B01: what the bindings expose as arrays and attributes is the data itself.
#include "stempy/image.h"
#ifdef IMG
#include "python/image.cpp"
#define INIT pybind11_init__image
#else
#include "python/io.cpp"
#define INIT pybind11_init__io
#endif
using namespace stempy;
static uint32_t pick(const char *n) { static const uint32_t v[] = { 1, 2, 3, 7, 576, 4095, 65535 }; return v[sx::choose(0, 6, n)]; }
// does the element at `ix` of the exposed array lie at `want`?
static bool at(const pybind11::buffer_info &b, const std::vector<ssize_t> &ix, const void *want)
{
  const char *p = (const char *)b.ptr;
  for (size_t i = 0; i < ix.size(); ++i) p += ix[i] * b.strides[i];
  return p == (const char *)want;
}
static void shape(const pybind11::buffer_info &b, const std::vector<uint64_t> &sh, ssize_t isz, char fmt)
{
  sx::check(b.itemsize == isz && b.format.size() == 1 && b.format[0] == fmt, "element type");
  sx::check(b.ndim == (ssize_t)sh.size() && b.shape.size() == sh.size() && b.strides.size() == sh.size(), "number of dimensions");
  for (size_t i = 0; i < sh.size(); ++i) sx::check(b.shape[i] == (ssize_t)sh[i], "shape");
}
template <class T> static void field(T &o, const char *n, const void *want)
{
  auto &f = pybind11::info<T>().fields;
  sx::check(f.count(n) && f[n](&o) == want, "attribute");
}
#ifdef IMG
template <class T> static void image(char fmt)
{
  typedef Image<T> I;
#ifdef SYMD
  uint32_t w = (uint32_t)sx::range(1, 65535, "w"), h = (uint32_t)sx::range(1, 65535, "h");
  I im;
  im.dimensions = { w, h };
  auto b = pybind11::info<I>().buffer(&im);
  shape(b, { h, w }, sizeof(T), fmt);
  sx::check(b.strides[0] == (ssize_t)(sizeof(T) * (uint64_t)w) && b.strides[1] == (ssize_t)sizeof(T), "strides");
#else
  uint32_t w = (uint32_t)sx::choose(1, 4, "w"), h = (uint32_t)sx::choose(1, 4, "h");
  I im(Dimensions2D{ w, h });
  auto b = pybind11::info<I>().buffer(&im);
  shape(b, { h, w }, sizeof(T), fmt);
  for (uint32_t r = 0; r < h; ++r)
    for (uint32_t c = 0; c < w; ++c) sx::check(at(b, { r, c }, im.data.get() + r * w + c), "element [row, column]");
#endif
}
static void radial()
{
  typedef RadialSum<uint64_t> R;
#ifdef SYMD
  uint32_t w = pick("w"), h = (uint32_t)sx::range(1, 65535, "h"), n = (uint32_t)sx::range(1, 65535, "n");
  R r;
  r.dimensions = { w, h };
  r.radii = n;
  auto b = pybind11::info<R>().buffer(&r);
  shape(b, { n, h, w }, 8, 'Q');
  sx::check(b.strides[0] == (ssize_t)(8ull * w * h) && b.strides[1] == (ssize_t)(8ull * w) && b.strides[2] == 8, "strides");
#else
  uint32_t w = (uint32_t)sx::choose(1, 3, "w"), h = (uint32_t)sx::choose(1, 3, "h"), n = (uint32_t)sx::choose(1, 3, "n");
  R r;
  r.dimensions = { w, h };
  r.radii = n;
  r.data.reset(new uint64_t[w * h * n], std::default_delete<uint64_t[]>());
  auto b = pybind11::info<R>().buffer(&r);
  shape(b, { n, h, w }, 8, 'Q');
  for (uint32_t k = 0; k < n; ++k)
    for (uint32_t i = 0; i < h; ++i)
      for (uint32_t j = 0; j < w; ++j) sx::check(at(b, { k, i, j }, r.data.get() + (k * h + i) * w + j), "element [radius, row, column]");
#endif
}
#else
template <class B, class Get> static void block(B &blk, Get get)
{
  auto b = pybind11::info<B>().buffer(&blk);
  uint64_t n = blk.header.imagesInBlock, h = blk.header.frameDimensions.second, w = blk.header.frameDimensions.first;
  shape(b, { n, h, w }, 2, 'H');
#ifdef SYMD
  sx::check(b.strides[0] == (ssize_t)(2ull * w * h) && b.strides[1] == (ssize_t)(2ull * w) && b.strides[2] == 2, "strides");
#else
  const uint16_t *d = get();
  for (ssize_t i = 0; i < (ssize_t)n; ++i)
    for (ssize_t r = 0; r < (ssize_t)h; ++r)
      for (ssize_t c = 0; c < (ssize_t)w; ++c) sx::check(at(b, { i, r, c }, d + (i * h + r) * w + c), "element [image, row, column]");
#endif
  field(blk, "header", &blk.header);
}
#endif
extern "C" void sx_main()
{
  pybind11::module_ m;
  INIT(m);
#ifdef IMG
  switch ((int)sx::choose(0, 3, "which")) {
  case 0: image<uint64_t>('Q'); break;
  case 1: image<double>('d'); break;
  case 2: image<uint16_t>('H'); break;
  default: radial();
  }
#else
#ifdef SYMD
  Header hd;
  hd.frameDimensions = { pick("w"), (uint32_t)sx::range(1, 65535, "h") };
  hd.imagesInBlock = (uint32_t)sx::range(1, 65535, "n");
  Block b;
  b.header = Header(hd);
  PyBlock pb;
  pb.header = Header(hd);
#else
  uint32_t w = (uint32_t)sx::choose(1, 4, "w"), h = (uint32_t)sx::choose(1, 4, "h"), n = (uint32_t)sx::choose(1, 3, "n");
  Header hd;
  hd.frameDimensions = { w, h };
  hd.imagesInBlock = n;
  hd.complete.resize(n, true);
  Block b(hd);
  PyBlock pb(pybind11::array_t<uint16_t>(pybind11::any_container({ n, h, w })));
  pb.header = Header(hd);
#endif
  if (sx::chooseFlag("py")) block(pb, [&] { return pb.data.get(); });
  else block(b, [&] { return (const uint16_t *)b.data.get(); });
  field(hd, "images_in_block", &hd.imagesInBlock);
  field(hd, "frame_dimensions", &hd.frameDimensions);
  field(hd, "scan_dimensions", &hd.scanDimensions);
  field(hd, "image_numbers", &hd.imageNumbers);
  field(hd, "version", &hd.version);
  field(hd, "timestamp", &hd.timestamp);
#endif
  sx::reach("done");
}
