// R03: truncated and malformed StreamReader files.
#include "stempy/reader.h"
#include "sxfile.h"
#include <cstring>
#include <stdexcept>
using namespace stempy;
#ifdef TRUNC
// NB well-formed blocks in file a (optionally followed by a well-formed file b); a is cut at every byte.
#if VER == 1
static const size_t HDR = 4096;
static const size_t DATA = 2 * IMAGES * ROWS * COLS;
#elif VER == 2
static const size_t HDR = 4, DATA = 0;
#else
static const size_t HDR = 16;
static const size_t DATA = 2 * 576 * 576;
#endif
static std::vector<char> block(int k)
{
  std::vector<char> v(HDR + DATA);
#if VER == 1
  uint32_t h[1024];
  sx::fill(h, 1024, "header");
  h[0] = IMAGES; h[1] = ROWS; h[2] = COLS;
  memcpy(v.data(), h, HDR);
#else
  sx::fill(v.data(), HDR, "header");
#endif
  sx::fill((uint16_t *)(v.data() + HDR), DATA / 2, "px");
  (void)k;
  return v;
}
extern "C" void sx_main()
{
  std::vector<char> a, b;
  for (int k = 0; k < NB; ++k) { auto x = block(k); a.insert(a.end(), x.begin(), x.end()); }
  std::vector<std::string> names{ sxf::path("a.dat") };
#ifdef NEXT
  b = block(9);
  sxf::write("b.dat", b.data(), b.size());
  names.push_back(sxf::path("b.dat"));
#endif
  const size_t L = HDR + DATA;
  // the cut: any of the interesting byte positions (all of them when the file is small)
#ifdef ALLCUTS
  size_t cut = (size_t)sx::choose(CUTLO, CUTHI, "cut");
#else
  static const size_t at[] = { 0, 1, 3, 4, 7, 8, 9, 15, 16, 17, 18, 1151, 1152, 1168, 331791, 663566, 663567, 663568, 663569, 663583, 663584, 663585, 663586, 900001, 1327134, 1327135, 1327136 };
  size_t cut = at[sx::choose(0, sizeof(at) / sizeof(at[0]) - 1, "cut")];
#endif
  if (cut > a.size()) cut = a.size();
  sxf::write("a.dat", a.data(), cut);
  size_t full = cut / L, rest = cut % L;
  StreamReader r(names, VER);
  for (size_t k = 0; k < full; ++k) {
    Block x = r.read();
    sx::check((bool)x.data, "complete block before the cut is read");
    sx_assert_mem_raw(x.data.get(), a.data() + k * L + HDR, DATA, "complete block before the cut is as stored");
  }
  int got = 0; // 0 empty, 1 block, 2 exception
  Block x;
  try {
    x = r.read();
    got = x.data ? 1 : 0;
  } catch (const std::exception &) {
    got = 2;
  }
  if (rest == 0) {
#ifdef NEXT
    sx::check(got == 1, "reading goes on with the next file");
    if (got == 1) sx_assert_mem_raw(x.data.get(), b.data() + HDR, DATA, "block of the next file as stored");
#else
    sx::check(got == 0, "nothing after the last complete block");
#endif
    sx::reach("whole");
  }
#ifdef NEXT
  // a file that ends just after a header takes its data from the next file: not a cut within header or data
  else if (rest == HDR || (VER == 3 && rest == 8)) { sx::reach("border"); }
#endif
  else {
    sx::check(got == 2, "a block cut short is an exception");
    sx::reach("cut");
  }
  sx::reach("done");
}
#else // arbitrary sizes in a version 1 header
static uint32_t size3(const char *n)
{
  int c = (int)sx::choose(0, 3, n);
  static const uint32_t v[] = { 0, 1, 3 };
  if (c < 3) return v[c];
  return (uint32_t)sx::range(0x20000000, 0xffffffffll, n);
}
extern "C" void sx_main()
{
  uint32_t h[1024];
  sx::fill(h, 1024, "header");
  int c = (int)sx::choose(0, 8, "images");
  static const uint32_t im[] = { 0, 1, 2, 1013, 1014, 1015, 1016, 5000 };
  if (c < 8) h[0] = im[c];
  else { sx::assume(h[0] > 0x10000000); }
  h[1] = size3("rows");
  h[2] = size3("cols");
  std::vector<char> a(4096 + 2 * PIXELS);
  memcpy(a.data(), h, 4096);
  sx::fill((uint16_t *)(a.data() + 4096), PIXELS, "px");
  sxf::write("a.dat", a.data(), a.size());
  StreamReader r(sxf::path("a.dat"), 1);
  Block x;
  try {
    x = r.read();
    sx::check((bool)x.data || h[0] == 0 || h[1] == 0 || h[2] == 0, "a block has data");
    sx::check(x.header.imageNumbers.size() == h[0] && h[0] <= 1014, "only image numbers of the header");
    uint64_t fp = (uint64_t)h[1] * h[2], n = fp * h[0];
    bool fits = h[0] == 0 || fp <= PIXELS / h[0];
    sx::check(fits, "no more pixels than the file has");
    if (fits) {
      for (uint32_t i = 0; i < x.header.imageNumbers.size(); ++i) sx::check(x.header.imageNumbers[i] == h[10 + i] - 1, "image numbers of the header");
      uint64_t m = sx_concretize_raw((uint64_t)n);
      sx_assert_mem_raw(x.data.get(), a.data() + 4096, 2 * m, "pixels of the file");
    }
    sx::reach("read");
  } catch (const std::exception &) {
    sx::reach("rejected");
  }
  sx::reach("done");
}
#endif
