// R04: sector placement.  NF frames, four modules, files in an arbitrary order.
#include "sector.h"
using namespace stempy;
extern "C" void sx_main()
{
  static const int order[] = ORDER; // module of each file, in the order the files are given
  Head h[NF];
  std::vector<uint16_t> px[NF][4];
  for (int f = 0; f < NF; ++f) {
    h[f].scan = sx::any<uint32_t>("scan");
    h[f].frame = sx::any<uint32_t>("frame");
    h[f].sw = sx::any<uint16_t>("sw");
    h[f].sh = sx::any<uint16_t>("sh");
    h[f].x = sx::any<uint16_t>("x");
    h[f].y = sx::any<uint16_t>("y");
    for (int g = 0; g < f; ++g) sx::assume(posOf(h[f]) != posOf(h[g]));
    for (int m = 0; m < 4; ++m) { px[f][m].resize(SPX); sx::fill(px[f][m].data(), SPX, "px"); }
  }
  std::vector<std::string> names;
  for (int k = 0; k < 4; ++k) {
    int m = order[k];
    std::vector<char> b(NF * SEC);
    for (int q = 0; q < NF; ++q) {
      int f = REV && k % 2 ? NF - 1 - q : q;
      memcpy(b.data() + q * SEC, &h[f], 16);
      memcpy(b.data() + q * SEC + 16, px[f][m].data(), 2 * SPX);
    }
    auto n = fileName(k, m);
    sxf::write(n.c_str(), b.data(), b.size());
    names.push_back(sxf::path(n.c_str()));
  }
  bool seen[NF] = {};
#ifdef MULTI
  SectorStreamMultiPassThreadedReader r(names, 1);
#else
  SectorStreamReader r(names, VER);
#endif
  for (int q = 0; q < NF; ++q) {
    Block b = r.read();
    auto &bh = b.header;
    sx::check((bool)b.data && bh.imagesInBlock == 1 && bh.imageNumbers.size() == 1, "one frame per block");
    int f = -1;
    for (int g = 0; g < NF; ++g) if (!seen[g] && bh.imageNumbers[0] == posOf(h[g])) { f = g; break; }
    sx::check(f >= 0, "the frame's scan position is that of its header");
    if (f < 0) return;
    seen[f] = true;
    sx::check(bh.frameDimensions.first == 576 && bh.frameDimensions.second == 576, "576x576 frames");
    sx::check(bh.version == VER && bh.scanNumber == h[f].scan, "version and scan number as stored");
    sx::check(bh.scanDimensions.first == h[f].sw && bh.scanDimensions.second == h[f].sh, "scan dimensions as stored");
    std::vector<uint16_t> want(FPX);
    for (int m = 0; m < 4; ++m) {
#if VER == 4
      for (size_t row = 0; row < 576; ++row) memcpy(&want[place(m, row * 144)], &px[f][m][row * 144], 288);
#else
      memcpy(&want[place(m, 0)], px[f][m].data(), 2 * SPX);
#endif
    }
    sx_assert_mem_raw(b.data.get(), want.data(), 2 * FPX, "every pixel at its own place");
  }
  sx::check(!r.read().data, "then an empty block");
  sx::reach("done");
}
