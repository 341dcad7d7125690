// I02: STEM value of a scan position = sum of the frame's pixels inside the
// annulus; positions without a frame stay 0; any worker schedule.
#include "stempy/image.cpp"
#include "blocks.h"
#include "sxrt.h"
using namespace stempy;
#ifndef PRE
#define PRE 0
#endif
extern "C" void sx_main()
{
  const uint32_t w = W, h = H, n = SWD * SHD;
  const int N = NB * IPB;
  uint16_t px[N][W * H];
  uint32_t num[N];
  std::vector<Block> blocks;
  for (int b = 0; b < NB; ++b) {
    std::vector<uint32_t> nums;
    for (int i = 0; i < IPB; ++i) {
      int k = b * IPB + i;
      num[k] = (uint32_t)sx::choose(0, n - 1, "num");
      for (int j = 0; j < k; ++j) sx::assume(num[j] != num[k]);
      nums.push_back(num[k]);
    }
    Block bl = HOW ? hb::make(w, h, SWD, SHD, nums) : hb::make(w, h, 5, 9, nums);
    for (int i = 0; i < IPB; ++i) {
#ifdef BIG // 32-bit sums would overflow: bright frames, the first pixels symbolic
      std::fill(px[b * IPB + i], px[b * IPB + i] + w * h, 65535);
      sx::fill(px[b * IPB + i], 2, "px");
#else
      sx::fill(px[b * IPB + i], w * h, "px");
#endif
      std::copy(px[b * IPB + i], px[b * IPB + i] + w * h, bl.data.get() + i * w * h);
    }
    blocks.push_back(bl);
  }
  std::vector<int> inner = INNER, outer = OUTER;
  int cx = CX, cy = CY;
  Dimensions2D sd = { 0, 0 };
  if (HOW == 0 || HOW == 2) sd.first = SWD + (HOW == 2);
  if (HOW == 0 || HOW == 3) sd.second = SHD + (HOW == 3);
  sxrt::setPreemptions(PRE);
  auto imgs = createSTEMImages(hb::BlockIt(&blocks, 0), hb::BlockIt(&blocks, NB), inner, outer, sd, Coordinates2D{ cx, cy });
  sx::check(imgs.size() == inner.size(), "one image per radius pair");
  int64_t ex = cx < 0 ? (w + 1) / 2 : cx, ey = cy < 0 ? (h + 1) / 2 : cy;
  for (size_t r = 0; r < imgs.size(); ++r) {
    sx::check(imgs[r].dimensions.first == SWD && imgs[r].dimensions.second == SHD, "image has the scan dimensions");
    for (uint32_t p = 0; p < n; ++p) {
      uint64_t s = 0;
      for (int k = 0; k < N; ++k)
        if (num[k] == p)
          for (uint32_t i = 0; i < w * h; ++i) {
            int64_t x = i % w, y = i / w, d = (x - ex) * (x - ex) + (y - ey) * (y - ey);
            if ((int64_t)inner[r] * inner[r] <= d && d < (int64_t)outer[r] * outer[r]) s += px[k][i];
          }
      sx::check(imgs[r].data.get()[p] == s, "STEM value is the masked sum of the position's frame");
      sx::out("v", imgs[r].data.get()[p]);
    }
  }
  sx::reach("done");
}
