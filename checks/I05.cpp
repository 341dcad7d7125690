// I05: a STEM histogram counts every pixel of the image exactly once, in the
// bin that contains it.
#include "stempy/image.cpp"
#include "blocks.h"
using namespace stempy;
extern "C" void sx_main()
{
  const uint32_t n = 3;
  STEMImage img(Dimensions2D{ n, 1 });
#ifdef USERBINS
  // arbitrary increasing edges
  int64_t e[NBINS + 1];
  std::vector<double> bins;
  for (int i = 0; i <= NBINS; ++i) {
    e[i] = (int64_t)sx::range(0, 1 << 20, "edge");
    if (i) sx::assume(e[i] > e[i - 1]);
    bins.push_back((double)e[i]);
  }
  uint64_t v[n];
  for (uint32_t i = 0; i < n; ++i) { v[i] = (uint64_t)sx::range(0, 1 << 21, "v"); img.data.get()[i] = v[i]; }
  auto f = createSTEMHistogram(img, NBINS, bins);
  sx::check(f.size() == NBINS, "one count per bin");
  for (int j = 0; j < NBINS; ++j) {
    int64_t c = 0;
    for (uint32_t i = 0; i < n; ++i) c += (int64_t)v[i] >= e[j] && ((int64_t)v[i] < e[j + 1] || (j == NBINS - 1 && (int64_t)v[i] == e[j + 1]));
    sx::check(f[j] == c, "bin counts the values in [edge, next edge), the last also its upper edge");
  }
#else
  uint64_t lo = (uint64_t)sx::choose(LO0, LO1, "lo"), span = (uint64_t)sx::choose(0, SPAN, "span"), hi = lo + span;
  int kind = (int)sx::choose(0, 2, "kind"); // third pixel: the minimum, the maximum, or anything in between
  uint64_t mid = kind == 0 ? 0 : kind == 1 ? span : (uint64_t)sx::range(1, SPAN, "mid");
  if (kind == 2) sx::assume(mid < span);
  uint32_t pos = (uint32_t)sx::choose(0, 2, "pos"); // any order of the pixels
  img.data.get()[pos] = lo + mid;
  img.data.get()[(pos + 1) % 3] = lo;
  img.data.get()[(pos + 2) % 3] = hi;
  auto bins = getContainer(img, NBINS);
  sx::check(bins.size() == NBINS + 1, "NBINS+1 edges");
  auto f = createSTEMHistogram(img, NBINS, bins);
  sx::check(f.size() == NBINS, "one count per bin");
  int64_t t = 0;
  for (int j = 0; j < NBINS; ++j) {
    t += f[j];
    if (j) sx::check(bins[j] >= bins[j - 1], "edges increase");
  }
  sx::check(bins[0] == (double)lo && bins[NBINS] >= (double)hi, "edges span the image values");
  sx::check(t == n, "every pixel is counted exactly once");
  sx::check(f[NBINS - 1] >= 1, "the largest value is in the last bin");
  sx::check(span == 0 || f[0] >= 1, "the smallest value is in the first bin");
  sx::out("first", f[0]);
#endif
  sx::reach("done");
}
