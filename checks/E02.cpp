// E02: before maxima are searched every pixel is dark-subtracted, gain-multiplied
// and zeroed when <= background or >= x-ray threshold.
// A 2-pixel frame decides the transformed value exactly: with the neighbour u
// untouched (dark 0, gain 1), pixel p is an event iff value(p) > value(u), for every u.
#ifdef THREADED
#include "thresholds_stub.h"
#endif
#include "stempy/electron.cpp"
#include "minireader.h"
using namespace stempy;
#ifndef GMAX
#define GMAX 1
#endif
extern "C" void sx_main()
{
  const uint32_t w = VERT ? 1 : 2, h = VERT ? 2 : 1;
  uint16_t px[2];
  sx::fill(px, 2, "px");
  uint32_t P = POS, U = 1 - P;
  float dark[2] = { 0, 0 }, gain[2] = { 1, 1 };
  int64_t d = 0, g = 1;
#if DARK
  d = sx::range(0, 65535, "dark");
#if !GAIN
#endif
  dark[P] = (float)d;
#endif
#if GAIN
#if DARK
  g = sx::choose(1, GMAX, "gain2"); // one path per gain value: multiples of 0.5
#else
  g = sx::range(1, GMAX, "gain2");
#endif
  gain[P] = (float)g * 0.5f;
#endif
  // thresholds: arbitrary integers, or half-way between integers
  int64_t bg2 = sx::range(-4, 131072, "bg2"), xr2 = sx::range(0, 1 << 22, "xr2");
  double bg = bg2 * 0.5, xr = xr2 * 0.5;
#if DARK && !GAIN
  // integer frames wrap around below zero; with usual thresholds such a value is an X-ray
  sx::assume(d <= px[P] || (bg2 >= 0 && xr2 <= 2 * (65536 + (int64_t)px[P] - d)));
#endif
  std::vector<Block> blocks;
  Block b = hb::make(w, h, 1, 1, { 0 });
  b.data.get()[0] = px[0];
  b.data.get()[1] = px[1];
#ifndef THREADED
  blocks.push_back(b);
  ElectronCountOptionsClassic o;
  o.backgroundThreshold = bg;
  o.xRayThreshold = xr;
#if DARK
  o.darkReference = dark;
#endif
#if GAIN
  o.gain = gain;
#endif
  auto r = electronCount(hb::BlockIt(&blocks, 0), hb::BlockIt(&blocks, 1), o);
#else
  hb::InlineReader rd;
  rd.blocks.push_back(b);
  thr::bg = bg;
  thr::xray = xr;
  ElectronCountOptions o;
#if DARK
  o.darkReference = dark;
#endif
#if GAIN
  o.gain = gain;
#endif
  auto r = electronCount(&rd, o);
  sx::check(thr::calls == 1 && r.metadata.backgroundThreshold == bg && r.metadata.xRayThreshold == xr, "thresholds reported as used");
#endif
  sx::check(r.data.size() == 1 && r.data[0].size() == 1, "one position, one frame");
  int64_t v[2];
  // doubled values, exact
  v[P] = ((int64_t)px[P] - d) * (GAIN ? g : 2);
  v[U] = 2 * (int64_t)px[U];
  for (int i = 0; i < 2; ++i)
    if (v[i] <= bg2 || v[i] >= xr2) v[i] = 0;
  auto &ev = r.data[0][0];
  bool has[2] = { false, false };
  for (size_t i = 0; i < ev.size(); ++i) {
    sx::check(ev[i] < 2, "event index in frame");
    if (ev[i] < 2) has[ev[i]] = true;
  }
  sx::check(has[P] == (v[P] > v[U]), "pixel is an event iff its corrected, thresholded value is the local maximum");
  sx::check(has[U] == (v[U] > v[P]), "neighbour is an event iff its value is the local maximum");
  sx::out("n", ev.size());
  sx::reach("done");
}
