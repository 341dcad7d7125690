// I02/I04 (errors): bad radii, no blocks or no scan size are errors.
#include "stempy/image.cpp"
#include "blocks.h"
using namespace stempy;
extern "C" void sx_main()
{
  int nb = (int)sx::choose(0, 1, "blocks"), ni = (int)sx::choose(0, 2, "ni"), no = (int)sx::choose(0, 2, "no");
  uint32_t ow = (uint32_t)sx::choose(0, 1, "ow"), oh = (uint32_t)sx::choose(0, 1, "oh"), hw = (uint32_t)sx::choose(0, 1, "hw"), hh = (uint32_t)sx::choose(0, 1, "hh");
  std::vector<Block> blocks;
  if (nb) {
    Block b = hb::make(2, 1, hw, hh, { 0 });
    sx::fill(b.data.get(), 2, "px");
    blocks.push_back(b);
  }
  bool sized = (ow && oh) || (hw && hh), threw = false;
  try {
#ifdef RADIAL
    auto r = radialSum(hb::BlockIt(&blocks, 0), hb::BlockIt(&blocks, nb), { ow, oh }, Coordinates2D{ 0, 0 });
    sx::check(r.dimensions.first == 1 && r.dimensions.second == 1, "dimensions");
#else
    auto r = createSTEMImages(hb::BlockIt(&blocks, 0), hb::BlockIt(&blocks, nb), std::vector<int>(ni, 0), std::vector<int>(no, 3), { ow, oh }, Coordinates2D{ 0, 0 });
    sx::check(r.size() == (size_t)ni, "images");
#endif
  } catch (std::invalid_argument &) {
    threw = true;
  }
#ifdef RADIAL
  bool bad = !nb || !sized;
#else
  bool bad = !nb || !sized || !ni || ni != no;
#endif
  sx::check(threw == bad, "invalid_argument exactly for missing blocks, scan size or mismatched radii");
  sx::out("threw", threw);
  if (threw) sx::reach("err"); else sx::reach("ok");
}
