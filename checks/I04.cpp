// I04: radial sum: every pixel of every frame lands once, at radius
// ceil(distance to the centre) of its scan position; any worker schedule.
#include "stempy/image.cpp"
#include "blocks.h"
#include "sxrt.h"
using namespace stempy;
#ifndef PRE
#define PRE 0
#endif
extern "C" void sx_main()
{
  const uint32_t w = W, h = H, n = SWD * SHD;
  const int N = NB * IPB;
  uint16_t px[N][W * H];
  uint32_t num[N];
  std::vector<Block> blocks;
  for (int b = 0; b < NB; ++b) {
    std::vector<uint32_t> nums;
    for (int i = 0; i < IPB; ++i) {
      int k = b * IPB + i;
      num[k] = (uint32_t)sx::choose(0, n - 1, "num"); // several frames may share a position
      nums.push_back(num[k]);
    }
    Block bl = HOW ? hb::make(w, h, SWD, SHD, nums) : hb::make(w, h, 5, 9, nums);
    for (int i = 0; i < IPB; ++i) {
#ifdef BIG // 32-bit sums would overflow: bright frames, the first pixels symbolic
      std::fill(px[b * IPB + i], px[b * IPB + i] + w * h, 65535);
      sx::fill(px[b * IPB + i], 2, "px");
#else
      sx::fill(px[b * IPB + i], w * h, "px");
#endif
      std::copy(px[b * IPB + i], px[b * IPB + i] + w * h, bl.data.get() + i * w * h);
    }
    blocks.push_back(bl);
  }
  int cx = (int)sx::choose(CLO, CHI, "cx"), cy = (int)sx::choose(CLO, CHI, "cy");
  sx::out("cx", cx); sx::out("cy", cy);
  Dimensions2D sd = { 0, 0 };
  if (HOW == 0 || HOW == 2) sd.first = SWD + (HOW == 2);
  if (HOW == 0 || HOW == 3) sd.second = SHD + (HOW == 3);
  sxrt::setPreemptions(PRE);
  auto rs = radialSum(hb::BlockIt(&blocks, 0), hb::BlockIt(&blocks, NB), sd, Coordinates2D{ cx, cy });
  int64_t ex = cx < 0 ? (w + 1) / 2 : cx, ey = cy < 0 ? (h + 1) / 2 : cy;
  sx::check(rs.dimensions.first == SWD && rs.dimensions.second == SHD, "radial sum has the scan dimensions");
  // pixel radius: smallest r with r*r >= squared distance
  uint32_t rad[W * H], rmax = 0;
  for (uint32_t i = 0; i < w * h; ++i) {
    int64_t x = i % w, y = i / w, d = (x - ex) * (x - ex) + (y - ey) * (y - ey);
    uint32_t r = 0;
    while ((int64_t)r * r < d) ++r;
    rad[i] = r;
    if (r > rmax) rmax = r;
  }
  sx::check(rs.radii > rmax, "the radius axis covers every pixel");
  for (uint32_t r = 0; r < rs.radii; ++r)
    for (uint32_t p = 0; p < n; ++p) {
      uint64_t s = 0;
      for (int k = 0; k < N; ++k)
        if (num[k] == p)
          for (uint32_t i = 0; i < w * h; ++i)
            if (rad[i] == r) s += px[k][i];
      sx::check(rs.data.get()[r * n + p] == s, "sum over the pixels at that radius of the position's frames");
      sx::out("v", rs.data.get()[r * n + p]);
    }
  sx::reach("done");
}
