// E01: the counted events of a frame are exactly the pixels strictly greater
// than all (up to eight) neighbours inside the frame, in ascending order.
#include "stempy/electron.cpp"
#include "blocks.h"
using namespace stempy;
#ifndef W
#define W 3
#define H 3
#endif
extern "C" void sx_main()
{
  const uint32_t w = W, h = H, n = w * h;
  std::vector<Block> blocks;
  std::vector<uint32_t> nums = { 0 };
  Block b = hb::make(w, h, 1, 1, nums);
  uint16_t px[n];
  sx::fill(px, n, "px");
  std::copy(px, px + n, b.data.get());
  blocks.push_back(b);
  std::vector<float> dark(n, 0.0f);
  ElectronCountOptionsClassic o;
  o.darkReference = dark.data();
  o.backgroundThreshold = 0.0;
  auto r = electronCount(hb::BlockIt(&blocks, 0), hb::BlockIt(&blocks, 1), o);
  sx::check(r.data.size() == 1 && r.data[0].size() == 1, "one position, one frame");
  auto &ev = r.data[0][0];
  sx::out("count", ev.size());
  uint32_t k = 0;
  for (uint32_t y = 0; y < h; ++y)
    for (uint32_t x = 0; x < w; ++x) {
      bool mx = true;
      for (int dy = -1; dy <= 1; ++dy)
        for (int dx = -1; dx <= 1; ++dx) {
          int xx = (int)x + dx, yy = (int)y + dy;
          if ((dx || dy) && xx >= 0 && yy >= 0 && xx < (int)w && yy < (int)h)
            mx &= px[y * w + x] > px[yy * w + xx];
        }
      bool listed = k < ev.size() && ev[k] == y * w + x;
      if (listed) ++k;
      sx::check(mx == listed, "pixel is an event iff strictly greater than its in-frame neighbours");
    }
  sx::check(k == ev.size(), "events ascending, unique, in range");
  sx::reach("done");
}
