// E03 (errors): no blocks, or no scan size anywhere, is an error, never a result.
#include "stempy/electron.cpp"
#include "minireader.h"
using namespace stempy;
extern "C" void sx_main()
{
  int nb = (int)sx::choose(0, 1, "blocks");
  uint32_t ow = (uint32_t)sx::choose(0, 1, "ow"), oh = (uint32_t)sx::choose(0, 1, "oh"), hw = (uint32_t)sx::choose(0, 1, "hw"), hh = (uint32_t)sx::choose(0, 1, "hh");
  std::vector<Block> blocks;
  if (nb) {
    Block b = hb::make(2, 1, hw, hh, { 0 });
    sx::fill(b.data.get(), 2, "px");
    blocks.push_back(b);
  }
  ElectronCountOptionsClassic o;
  o.scanDimensions = { ow, oh };
  o.backgroundThreshold = 0;
  o.xRayThreshold = 1e9;
  bool threw = false;
  try {
    auto r = electronCount(hb::BlockIt(&blocks, 0), hb::BlockIt(&blocks, nb), o);
    sx::check(r.data.size() == 1, "one position");
  } catch (std::invalid_argument &) {
    threw = true;
  }
  bool sized = (ow && oh) || (hw && hh);
  sx::check(threw == (!nb || !sized), "invalid_argument exactly when there is nothing to count or no scan size");
  sx::out("threw", threw);
  if (threw) sx::reach("err"); else sx::reach("ok");
}
