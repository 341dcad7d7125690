// E05 (wiring): with applyRowDarkSubtraction the counted events are the maxima
// of the row-dark corrected frame (and of nothing else), in both counting paths.
#ifdef THREADED
#include "thresholds_stub.h"
#endif
#include "stempy/electron.cpp"
#include "minireader.h"
using namespace stempy;
#if GAIN
typedef float F;
#else
typedef uint16_t F;
#endif
extern "C" void sx_main()
{
  const uint32_t w = 4, h = 1, n = 4;
  static const uint16_t base[n] = { 0, 5, 3, 6 };
  uint16_t px[n];
  std::vector<float> dark(n), gain(n);
  for (uint32_t i = 0; i < n; ++i) {
    px[i] = i % 2 ? base[i] : i == SYM ? (uint16_t)sx::range(1, 15, "px") : base[i] + 2;
    dark[i] = 1;
    gain[i] = i == 2 ? 0.5f : 1.0f;
  }
  Block b = hb::make(w, h, 1, 1, { 0 });
  std::copy(px, px + n, b.data.get());
  std::vector<F> ref(px, px + n);
  const float om = 8.0f;
  applyRowDark<F>(ref, Dimensions2D{ w, h }, om, 3.0, 40.0, DARK ? dark.data() : nullptr, GAIN ? gain.data() : nullptr, USEMEAN);
  std::vector<Block> blocks;
#ifdef THREADED
  hb::InlineReader rd;
  rd.blocks.push_back(b);
  thr::bg = 3; thr::xray = 40; thr::mean = om;
  ElectronCountOptions o;
#else
  blocks.push_back(b);
  ElectronCountOptionsClassic o;
  o.backgroundThreshold = 3;
  o.xRayThreshold = 40;
  o.optimizedMean = om;
#endif
  o.applyRowDarkSubtraction = true;
  o.applyRowDarkUseMean = USEMEAN;
  if (DARK) o.darkReference = dark.data();
  if (GAIN) o.gain = gain.data();
#ifdef THREADED
  auto r = electronCount(&rd, o);
#else
  auto r = electronCount(hb::BlockIt(&blocks, 0), hb::BlockIt(&blocks, 1), o);
#endif
  sx::check(r.data.size() == 1 && r.data[0].size() == 1, "one position, one frame");
  auto &ev = r.data[0][0];
  uint32_t k = 0;
  for (uint32_t i = 0; i < n; ++i) {
    bool mx = true;
    if (i > 0) mx &= ref[i] > ref[i - 1];
    if (i + 1 < n) mx &= ref[i] > ref[i + 1];
    bool has = k < ev.size() && ev[k] == i;
    if (has) ++k;
    sx::check(mx == has, "events are the maxima of the row-dark corrected frame");
  }
  sx::check(k == ev.size(), "no other events");
  sx::out("n", ev.size());
  sx::reach("done");
}
