// M01: counting with several ranks.  Rank r's reader delivers its own frames;
// rank 0 returns the events of all frames.
#include "thresholds_stub.h"
#include "stempy/electron.cpp"
#include "minireader.h"
#include <mpi.h>
#ifdef SX_SYM
#include "sxrt.h"
#endif
using namespace stempy;
extern "C" void sx_main()
{
  static const int nb[RANKS] = NBS; // frames per rank, the first ones are its samples
  const uint32_t W = 4, H = 1, SW = 3;
  struct F { int rank; uint32_t p; int bright; };
  std::vector<F> all;
  std::vector<hb::ConcurrentReader> rd(RANKS);
  for (int r = 0; r < RANKS; ++r)
    for (int k = 0; k < nb[r]; ++k) {
      F f{ r, (uint32_t)sx::choose(0, SW - 1, "position"), (r + k) % (int)W };
      Block b = hb::make(W, H, SW, 1, { f.p });
      for (uint32_t i = 0; i < W; ++i) b.data.get()[i] = (int)i == f.bright ? 100 : 1;
      rd[r].blocks.push_back(b);
      rd[r].nThreads = 1;
      all.push_back(f);
    }
  thr::bg = 50; thr::xray = 1000; thr::mean = 4;
  size_t most = 0;
  for (uint32_t p = 0; p < SW; ++p) {
    size_t n = 0;
    for (auto &f : all) n += f.p == p;
    if (n > most) most = n;
  }
#ifdef SX_SYM
  sxrt::setPreemptions(0);
  sxrt::setFreeBlocking(false);
#endif
  ElectronCountedData d[RANKS];
  mpisim::run(RANKS, [&](int r) {
    ElectronCountOptions o;
    o.thresholdNumberOfBlocks = SAMPLES;
    d[r] = electronCount(&rd[r], o);
  });
  sx::check(thr::calls == 1 && thr::blocksSeen == SAMPLES, "the thresholds are calculated once, from the samples of all ranks");
  for (int r = 0; r < RANKS; ++r) sx::check(d[r].scanDimensions.first == SW && d[r].scanDimensions.second == 1 && d[r].frameDimensions.first == W && d[r].frameDimensions.second == H && d[r].data.size() == SW, "shape of the result on every rank");
  sx::check(d[0].metadata.thresholdCalculated && d[0].metadata.backgroundThreshold == 50 && d[0].metadata.xRayThreshold == 1000, "thresholds in the metadata of rank 0");
  for (uint32_t p = 0; p < SW && p < d[0].data.size(); ++p) {
    int want[W + 1] = { 0 }, got[W + 1] = { 0 };
    want[W] = (int)most;
    for (auto &f : all) if (f.p == p) { ++want[f.bright]; --want[W]; }
    sx::check(d[0].data[p].size() == most, "every position has as many frames as the fullest position");
    for (auto &e : d[0].data[p]) {
      sx::check(e.size() <= 1, "one electron per frame");
      if (e.size() == 1 && e[0] < W) ++got[e[0]]; else ++got[W];
    }
    for (uint32_t k = 0; k <= W; ++k) sx::check(want[k] == got[k], "every position has exactly the events of its frames, whatever rank read them");
  }
  sx::reach("done");
}
