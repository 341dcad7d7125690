// R02: version 3 (one frame per block) and version 2 (1600 frames per block) streams.
#include "stempy/reader.h"
#include "sxfile.h"
#include <cstring>
using namespace stempy;
static const size_t FR = 576 * 576;
extern "C" void sx_main()
{
#if VER == 3
  uint32_t sn[NB], fnum[NB];
  uint16_t pos[NB][4];
  std::vector<uint16_t> px[NB];
  std::vector<char> bytes;
  for (int b = 0; b < NB; ++b) {
    sn[b] = sx::any<uint32_t>("scan");
    fnum[b] = sx::any<uint32_t>("frame");
    sx::fill(pos[b], 4, "pos");
    px[b].resize(FR);
    sx::fill(px[b].data(), FR, "px");
    bytes.insert(bytes.end(), (char *)&sn[b], (char *)(&sn[b] + 1));
    bytes.insert(bytes.end(), (char *)&fnum[b], (char *)(&fnum[b] + 1));
    bytes.insert(bytes.end(), (char *)pos[b], (char *)(pos[b] + 4));
    bytes.insert(bytes.end(), (char *)px[b].data(), (char *)(px[b].data() + FR));
  }
  sxf::write("a.dat", bytes.data(), bytes.size());
  StreamReader r(sxf::path("a.dat"), 3);
  for (int pass = 0; pass < 2; ++pass) {
    for (int b = 0; b < NB; ++b) {
      Block k = r.read();
      auto &h = k.header;
      sx::check(h.imagesInBlock == 1 && h.version == 3 && h.frameDimensions.first == 576 && h.frameDimensions.second == 576, "one 576x576 frame");
      sx::check(h.scanNumber == sn[b] && h.frameNumber == fnum[b], "scan and frame number as stored");
      sx::check(h.scanDimensions.first == pos[b][0] && h.scanDimensions.second == pos[b][1], "scan dimensions as stored");
      sx::check(h.imageNumbers.size() == 1 && h.imageNumbers[0] == (uint32_t)pos[b][3] * pos[b][0] + pos[b][2], "image number is y * width + x");
      sx::check((bool)k.data, "block has data");
      sx_assert_mem_raw(k.data.get(), px[b].data(), FR * 2, "frame data exactly as stored");
    }
    sx::check(!r.read().data, "then an empty block");
    r.reset();
  }
#else
  // 1600 frames: zero except symbolic pixels at chosen places
  const size_t N = 1600 * FR;
  static const size_t at[] = { 0, 1, 575, 576, FR - 1, FR, 700 * FR + 12345, N - FR, N - 1 };
  sxf::File f("a.dat");
  uint32_t first = sx::any<uint32_t>("first");
  f.resize(4 + 2 * N);
  f.put(0, &first, 4);
  uint16_t v[9];
  sx::fill(v, 9, "px");
  for (int i = 0; i < 9; ++i) f.put(4 + 2 * at[i], &v[i], 2);
  f.close();
  StreamReader r(sxf::path("a.dat"), 2);
  Block k = r.read();
  auto &h = k.header;
  sx::check(h.imagesInBlock == 1600 && h.version == 2 && h.frameDimensions.first == 576 && h.frameDimensions.second == 576, "1600 frames of 576x576");
  sx::check(h.imageNumbers.size() == 1600, "one image number per frame");
  for (uint32_t i = 0; i < 1600; ++i) sx::check(h.imageNumbers[i] == i, "image numbers count from 0");
  for (int i = 0; i < 9; ++i) sx::check(k.data.get()[at[i]] == v[i], "pixel as stored");
  static const size_t z[] = { 2, 577, FR + 1, 700 * FR + 12344, 700 * FR + 12346, N - 2 };
  for (size_t p : z) sx::check(k.data.get()[p] == 0, "other pixels as stored");
  sx::check(!r.read().data, "then an empty block");
#endif
  sx::reach("done");
}
