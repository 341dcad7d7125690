// R01/R09: version 1 stream files.  Every header field that is not a size is
// symbolic, as is every pixel; sizes are a symbolic choice.
#include "stempy/reader.h"
#include "sxfile.h"
#include <cstring>
using namespace stempy;
struct Want { uint32_t images, rows, cols, version, stamp; std::vector<uint32_t> nums; std::vector<uint16_t> px; };
static std::vector<Want> want;
static void compare(const Block &b, const Want &w)
{
  sx::check(b.header.imagesInBlock == w.images, "number of images of the block");
  sx::check(b.header.frameDimensions.first == w.cols && b.header.frameDimensions.second == w.rows, "frame dimensions are (columns, rows)");
  sx::check(b.header.version == w.version && b.header.timestamp == w.stamp, "version and timestamp as stored");
  sx::check(b.header.imageNumbers.size() == w.images, "one image number per image");
  for (uint32_t i = 0; i < w.images && i < b.header.imageNumbers.size(); ++i) sx::check(b.header.imageNumbers[i] == w.nums[i] - 1, "image numbers converted to zero-based");
  sx::check(b.data.get() != nullptr, "block has data");
  if (b.data) sx_assert_mem_raw(b.data.get(), w.px.data(), w.px.size() * 2, "frame data exactly as stored");
}
extern "C" void sx_main()
{
  std::vector<std::string> names;
  static const char *fn[] = { "a.dat", "b.dat", "c.dat" };
  static const int per[] = FILES; // blocks per file
  int nb = 0;
  for (size_t f = 0; f < sizeof(per) / sizeof(per[0]); ++f) {
    std::vector<char> bytes;
    for (int k = 0; k < per[f]; ++k, ++nb) {
      Want w;
      w.images = (uint32_t)sx::choose(IMLO, IMHI, "images");
      w.rows = 1 + nb % 3;
      w.cols = 2 + nb % 2;
      uint32_t h[1024];
      sx::fill(h, 1024, "header");
      h[0] = w.images; h[1] = w.rows; h[2] = w.cols;
      w.version = h[3]; w.stamp = h[4];
      for (uint32_t i = 0; i < w.images; ++i) w.nums.push_back(h[10 + i]);
      w.px.resize(w.images * w.rows * w.cols);
      sx::fill(w.px.data(), w.px.size(), "px");
      bytes.insert(bytes.end(), (char *)h, (char *)(h + 1024));
      bytes.insert(bytes.end(), (char *)w.px.data(), (char *)(w.px.data() + w.px.size()));
      want.push_back(w);
    }
    sxf::write(fn[f], bytes.data(), bytes.size());
    names.push_back(sxf::path(fn[f]));
  }
  StreamReader r(names, 1);
#ifdef RESETS
  for (int k = 0; k < RESETS; ++k) { // any number of reads, also past the end, then start again
    int m = (int)sx::choose(0, nb + 2, "reads");
    for (int i = 0; i < m; ++i) {
      Block b = r.read();
      if (i < nb) compare(b, want[i]); else sx::check(!b.data, "nothing after the last block");
    }
    r.reset();
  }
#endif
#ifdef ITER
  int i = 0;
  for (auto it = r.begin(); it != r.end(); ++it, ++i) {
    sx::check(i < nb, "no more blocks than stored");
    compare(*it, want[i]);
  }
  sx::check(i == nb, "every block is delivered");
#else
  for (int i = 0; i < nb; ++i) {
    Block b = r.read();
    compare(b, want[i]);
  }
#endif
  for (int k = 0; k < 2; ++k) {
    Block b = r.read();
    sx::check(!b.data && b.header.imagesInBlock == 0 && b.header.version == 0, "after the last block: an empty block");
  }
  sx::out("n", nb);
  sx::reach("done");
}
