// I03: sparse STEM value = 65535 x number of the position's electrons inside the annulus.
#include "stempy/image.cpp"
#include "blocks.h"
using namespace stempy;
#ifndef EVLO
#define EVLO 0
#define EVHI (w * h - 1)
#endif
extern "C" void sx_main()
{
  const uint32_t w = W, h = H, n = SWD * SHD;
  ElectronCountedData d;
  d.scanDimensions = { SWD, SHD };
  d.frameDimensions = { w, h };
  uint32_t ev[SWD * SHD][FR][EV];
  d.data.resize(n);
  for (uint32_t p = 0; p < n; ++p) {
    d.data[p].resize(FR);
    for (int f = 0; f < FR; ++f) {
      int c = (p + f) % 2 ? EV : EV - 1; // also frames with fewer (or no) electrons
      for (int e = 0; e < c; ++e) { ev[p][f][e] = (uint32_t)sx::range(EVLO, EVHI, "ev"); d.data[p][f].push_back(ev[p][f][e]); }
    }
  }
  std::vector<int> inner = INNER, outer = OUTER;
  auto imgs = createSTEMImages(d, inner, outer, Coordinates2D{ CX, CY });
  sx::check(imgs.size() == inner.size(), "one image per radius pair");
  int64_t ex = CX < 0 ? (w + 1) / 2 : CX, ey = CY < 0 ? (h + 1) / 2 : CY;
  for (size_t r = 0; r < imgs.size(); ++r) {
    sx::check(imgs[r].dimensions.first == SWD && imgs[r].dimensions.second == SHD, "image has the scan dimensions");
    for (uint32_t p = 0; p < n; ++p) {
      uint64_t c = 0;
      for (int f = 0; f < FR; ++f)
        for (size_t e = 0; e < d.data[p][f].size(); ++e) {
          int64_t x = ev[p][f][e] % w, y = ev[p][f][e] / w, q = (x - ex) * (x - ex) + (y - ey) * (y - ey);
          c += (int64_t)inner[r] * inner[r] <= q && q < (int64_t)outer[r] * outer[r];
        }
      sx::check(imgs[r].data.get()[p] == c * 65535, "sparse STEM value counts the electrons inside the annulus");
      sx::out("v", imgs[r].data.get()[p]);
    }
  }
  for (int k = 0; k < 3; ++k) { // mismatched or missing radii
    bool threw = false;
    try {
      createSTEMImages(d, std::vector<int>(k == 0 ? 0 : 1, 0), std::vector<int>(k == 1 ? 0 : k == 2 ? 2 : 1, 3), Coordinates2D{ 0, 0 });
    } catch (std::invalid_argument &) { threw = true; }
    sx::check(threw, "mismatched or missing radii are an error");
  }
  sx::reach("done");
}
