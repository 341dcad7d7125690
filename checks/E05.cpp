// E05: row-dark preprocessing.  For every row, the left floor(w/2) and the right
// remaining pixels are separately scaled by optimizedMean / (mean or median of
// the raw half-row), after the global dark (if any) and before gain (if any) and
// thresholding.
#include "stempy/electron.cpp"
#include "blocks.h"
using namespace stempy;
#ifndef FT
#define FT float
#endif
typedef FT F;
static float meanOf(const std::vector<F> &v, size_t a, size_t b)
{
  float s = 0.0f;
  for (size_t i = a; i < b; ++i) s = s + v[i];
  return s / (float)(b - a);
}
static float medianOf(const std::vector<F> &v, size_t a, size_t b)
{
  std::vector<F> t;
  for (size_t i = a; i < b; ++i) {
    F x = v[i];
    // branch-free insertion keeps the oracle's expressions simple
    for (size_t k = 0; k < t.size(); ++k) {
      F lo = t[k] < x ? t[k] : x, hi = t[k] < x ? x : t[k];
      t[k] = lo;
      x = hi;
    }
    t.push_back(x);
  }
  size_t n = t.size() / 2;
  if (t.size() & 1) return (float)t[n];
  return (t[n - 1] + t[n]) / 2.0f;
}
extern "C" void sx_main()
{
  const uint32_t w = W, h = H, n = w * h;
  std::vector<F> frame(n), raw(n);
  uint8_t p[n], d8[n];
  std::vector<float> dark(n), gain(n);
  for (uint32_t i = 0; i < n; ++i) {
    p[i] = (uint8_t)sx::range(1, MAXP, "px");
    raw[i] = frame[i] = p[i];
    d8[i] = DARK ? (uint8_t)sx::range(0, MAXP, "dark") : 0;
#if FINT
    sx::assume(d8[i] <= p[i]); // integer frames: no wrap-around
#endif
    dark[i] = d8[i];
    gain[i] = GAIN ? 0.5f * (1 + i % 3) : 1;
  }
  float om = OM;
  // call through the template the counting functions use
  applyRowDark<F>(frame, Dimensions2D{ w, h }, om, BG, XR, DARK ? dark.data() : nullptr, gain.data(), USEMEAN);
  sx::check(frame.size() == n, "size");
  for (uint32_t y = 0; y < h; ++y)
    for (uint32_t x = 0; x < w; ++x) {
      uint32_t i = y * w + x;
      size_t a = y * w + (x < w / 2 ? 0 : w / 2), b = y * w + (x < w / 2 ? w / 2 : w);
      float st = USEMEAN ? meanOf(raw, a, b) : medianOf(raw, a, b);
      F v = raw[i];
      if (DARK) v = (F)(v - dark[i]);
      v = (F)(v * (om / st));
#if !FINT
      v = v * gain[i];
#endif
      if (v <= BG || v >= XR) v = 0;
      sx::check(v == frame[i], "row-dark corrected pixel");
    }
  sx::reach("done");
}
