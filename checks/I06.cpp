// I06: average and maximum diffraction pattern over every frame of every block.
#include "stempy/image.cpp"
#include "blocks.h"
using namespace stempy;
extern "C" void sx_main()
{
  const uint32_t w = W, h = H;
  static const uint32_t ipb[NB] = IPBS; // images per block
  std::vector<Block> blocks;
  std::vector<std::vector<uint16_t>> frames;
  for (int b = 0; b < NB; ++b) {
    std::vector<uint32_t> nums;
    for (uint32_t i = 0; i < ipb[b]; ++i) nums.push_back((uint32_t)sx::range(0, 100, "num")); // irrelevant
    Block bl = hb::make(w, h, 3, 3, nums);
    for (uint32_t i = 0; i < ipb[b]; ++i) {
      std::vector<uint16_t> px(w * h);
#ifdef BIG
      std::fill(px.begin(), px.end(), 65535);
      if (i == 0) sx::fill(px.data(), w * h, "px");
#else
      sx::fill(px.data(), w * h, "px");
#endif
      std::copy(px.begin(), px.end(), bl.data.get() + i * w * h);
      frames.push_back(px);
    }
    blocks.push_back(bl);
  }
#ifdef AVERAGE
  auto a = calculateAverage(hb::BlockIt(&blocks, 0), hb::BlockIt(&blocks, NB));
#else
  Image<double> dark;
  int64_t dk[W * H] = { 0 };
  if (DARK) {
    dark = Image<double>(Dimensions2D{ w, h });
    for (uint32_t i = 0; i < w * h; ++i) { dk[i] = sx::range(0, 65535, "dark"); dark.data.get()[i] = (double)dk[i]; }
  }
  auto a = DARK ? maximumDiffractionPattern(hb::BlockIt(&blocks, 0), hb::BlockIt(&blocks, NB), dark) : maximumDiffractionPattern(hb::BlockIt(&blocks, 0), hb::BlockIt(&blocks, NB));
#endif
  sx::check(a.dimensions.first == w && a.dimensions.second == h, "pattern has the frame dimensions");
  for (uint32_t i = 0; i < w * h; ++i) {
#ifdef AVERAGE
    uint64_t s = 0;
    for (auto &f : frames) s += f[i];
    sx::check(a.data.get()[i] == (double)s / (double)frames.size(), "mean of the pixel over all frames");
#else
    int64_t m = 0;
    for (auto &f : frames) m = f[i] > m ? f[i] : m;
    sx::check(a.data.get()[i] == (double)(m - dk[i]), "maximum of the pixel over all frames, less the dark reference");
#endif
  }
  sx::reach("done");
}
