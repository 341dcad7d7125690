// E03/E04: every frame's events are reported at the scan position its header
// names, in an event table of the right shape.
//  default          classic (serial) counting, distinct positions
//  -DTHREADED       threaded counting with every block a sample/incomplete block
//  -DTHREADED -DCONC  the blocks are delivered by concurrent workers, under
//                   every schedule within the preemption bound
#ifdef THREADED
#include "thresholds_stub.h"
#endif
#include "stempy/electron.cpp"
#include "minireader.h"
#ifdef CONC
#include "sxrt.h"
#endif
using namespace stempy;
#ifndef NB
#define NB 2
#endif
#ifndef IPB
#define IPB 1
#endif
#ifndef W
#define W 2
#define H 1
#endif
extern "C" void sx_main()
{
  const int N = NB * IPB;
  // scan dimensions from the options, or (when either is zero) from the header
  uint32_t sw = SWD, sh = SHD;
  int how = HOW; // 0 options, 1 header only, 2 option width 0, 3 option height 0
  uint32_t n = sw * sh;
  uint32_t num[N];
  uint16_t px[N][W * H];
  std::vector<Block> blocks;
#ifdef CONC
  bool complete[NB];
#endif
  int T = 0;
  for (int b = 0; b < NB; ++b) {
    std::vector<uint32_t> nums;
    for (int i = 0; i < IPB; ++i) {
      uint32_t k = b * IPB + i;
#ifdef FIXNUM
      static const uint32_t fx[] = FIXNUM;
      num[k] = fx[k];
#else
      num[k] = (uint32_t)sx::choose(0, n - 1, "num");
#endif
#ifndef THREADED
      for (uint32_t j = 0; j < k; ++j) sx::assume(num[k] != num[j]);
#endif
      nums.push_back(num[k]);
    }
    Block bl = how == 0 ? hb::make(W, H, 7, 9, nums) : hb::make(W, H, sw, sh, nums);
    for (int i = 0; i < IPB; ++i) {
#ifndef CONC
      int pat = (int)sx::choose(0, 2, "pattern"); // event at pixel 0, at pixel 1, none
#endif
      for (int p = 0; p < W * H; ++p) {
#ifdef CONC
        px[b * IPB + i][p] = (uint16_t)((b * IPB + i + p) % (W * H) + 1); // distinct, event position depends on the frame
#else
        px[b * IPB + i][p] = (pat + 1) >> p & 1;
#endif
        bl.data.get()[i * W * H + p] = px[b * IPB + i][p];
      }
    }
#ifdef THREADED
    // workers only ever use complete blocks as samples
#ifdef CONC
    bool c = b != INCOMPLETE;
#else
    bool c = b == NB - 1 || sx::chooseFlag("complete");
#endif
    bl.header.complete.assign(IPB, c);
    T += c;
#endif
    blocks.push_back(bl);
  }
  double bg = 0.5, xr = 1e6;
#ifdef THREADED
  ElectronCountOptions o;
#else
  ElectronCountOptionsClassic o;
#endif
  if (how == 0 || how == 3) o.scanDimensions.first = sw + (how == 3);
  else o.scanDimensions.first = 0;
  if (how == 0 || how == 2) o.scanDimensions.second = sh + (how == 2);
  else o.scanDimensions.second = 0;
#ifdef THREADED
  thr::bg = bg; thr::xray = xr; thr::mean = 4;
#ifdef CONC
  sxrt::setPreemptions(PRE);
  hb::ConcurrentReader rd;
  rd.nThreads = NT;
  T = SAMPLES;
#else
  hb::InlineReader rd;
#endif
  for (auto &b : blocks) rd.blocks.push_back(b);
  o.thresholdNumberOfBlocks = T;
#ifdef READFAIL
  rd.fail = true;
  bool failed = false;
  try { electronCount(&rd, o); } catch (const std::runtime_error &) { failed = true; }
  sx::check(failed, "a failure to read the data is passed on");
  sx::reach("done");
  return;
#endif
  auto r = electronCount(&rd, o);
  auto &m = r.metadata;
  sx::check(m.thresholdCalculated && m.backgroundThreshold == bg && m.xRayThreshold == xr && m.optimizedMean == 4 && m.numberOfSamples == 7 && m.minSample == 1 &&
            m.maxSample == 2 && m.mean == 3 && m.variance == 4 && m.stdDev == 5 && m.numberOfBins == 6 && m.xRayThresholdNSigma == 8 &&
            m.backgroundThresholdNSigma == 9 && m.optimizedStdDev == 10, "metadata are the calculated thresholds");
  sx::check(thr::calls == 1 && thr::blocksSeen == (size_t)T, "thresholds from exactly the requested number of blocks");
#else
  o.backgroundThreshold = bg;
  o.xRayThreshold = xr;
  auto r = electronCount(hb::BlockIt(&blocks, 0), hb::BlockIt(&blocks, NB), o);
#endif
  sx::check(r.scanDimensions.first == sw && r.scanDimensions.second == sh, "scan dimensions: from the options, else from the header");
  sx::check(r.frameDimensions.first == W && r.frameDimensions.second == H, "frame dimensions from the header");
  sx::check(r.data.size() == n, "one entry per scan position");
  if (r.data.size() != n) return;
  size_t most = 0;
#ifdef THREADED
  for (uint32_t p = 0; p < n; ++p) {
    size_t c = 0;
    for (int k = 0; k < N; ++k) c += num[k] == p;
    if (c > most) most = c;
  }
#else
  most = 1;
#endif
  for (uint32_t p = 0; p < n; ++p) {
    auto &fr = r.data[p];
    sx::check(fr.size() == most, "every position has as many frames as the fullest position");
    // histogram of event lists: index W*H = no event
    int want[W * H + 1] = { 0 }, got[W * H + 1] = { 0 };
    size_t mine = 0;
    for (int k = 0; k < N; ++k)
      if (num[k] == p) {
        ++mine;
#ifdef CONC
        int e = 0;
        for (int q = 1; q < W * H; ++q) if (px[k][q] > px[k][e]) e = q;
        ++want[e];
#else
        bool a = px[k][0] > px[k][1], b = px[k][1] > px[k][0];
        want[0] += a;
        want[1] += b;
        want[2] += !a && !b;
#endif
      }
    want[W * H] += (int)(most - mine);
    for (auto &ev : fr) {
      sx::check(ev.size() <= 1, "at most one maximum in such a frame");
      if (ev.size() == 1) { sx::check(ev[0] < W * H, "event in frame"); for (int q = 0; q < W * H; ++q) got[q] += ev[0] == (uint32_t)q; }
      else ++got[W * H];
    }
    for (int q = 0; q <= W * H; ++q) sx::check(want[q] == got[q], "position holds exactly its own frames' events");
  }
  sx::out("n", r.data.size());
  sx::out("m", most);
  sx::reach("done");
}
