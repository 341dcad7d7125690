// I01: annular mask membership, for every radius pair and centre.
#include "stempy/mask.h"
#include "sx.h"
using namespace stempy;
extern "C" void sx_main()
{
  const uint32_t w = W, h = H;
  int64_t ri = sx::range(0, RMAX, "inner"), ro = sx::range(0, RMAX, "outer");
  int64_t cx = sx::range(-3, CMAX, "cx"), cy = sx::range(-3, CMAX, "cy");
  uint16_t *m = createAnnularMask(Dimensions2D{ w, h }, (int)ri, (int)ro, Coordinates2D{ (int)cx, (int)cy });
  // negative centre coordinates mean the middle of the frame, rounded up
  int64_t ex = cx < 0 ? (int64_t)(w + 1) / 2 : cx, ey = cy < 0 ? (int64_t)(h + 1) / 2 : cy;
  uint64_t in = 0;
  for (uint32_t i = 0; i < w * h; ++i) {
    int dx = (int)(i % w) - (int)ex, dy = (int)(i / w) - (int)ey;
    int64_t d = (int64_t)dx * dx + (int64_t)dy * dy;
    bool inside = (int64_t)(int)ri * (int)ri <= d && d < (int64_t)(int)ro * (int)ro;
    sx::check(m[i] == (inside ? 0xFFFF : 0), "pixel is in the mask iff inner <= distance < outer");
    in += inside;
  }
  sx::out("in", in);
  delete[] m;
  sx::reach("done");
}
