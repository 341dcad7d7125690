// M01: gathering events and sample blocks, sharing thresholds and samples.
#include "stempy/electron.h"
#include "blocks.h"
#include <mpi.h>
#ifdef SX_SYM
#include "sxrt.h"
#endif
using namespace stempy;
static const int NP = 3;
static void deterministic()
{
#ifdef SX_SYM
  sxrt::setPreemptions(0);
  sxrt::setFreeBlocking(false);
#endif
}
#if MODE == 0
// events: FR[r][p] frames of rank r at position p, the first event of every frame
// identifies it, 0-1 more events with arbitrary values
extern "C" void sx_main()
{
  static const int fr[RANKS][NP] = FR;
  Events ev[RANKS];
  std::vector<std::vector<uint32_t>> all[NP];
  for (int r = 0; r < RANKS; ++r) {
    ev[r].resize(NP);
    for (int p = 0; p < NP; ++p)
      for (int k = 0; k < fr[r][p]; ++k) {
        std::vector<uint32_t> f{ (uint32_t)(r * 100 + p * 10 + k) };
        if (sx::chooseFlag("more")) f.push_back(sx::any<uint32_t>("event"));
        ev[r][p].push_back(f);
        all[p].push_back(f);
      }
  }
  deterministic();
  mpisim::run(RANKS, [&](int r) {
    int size = 0, rank = -1;
    initMpiWorldRank(size, rank);
    sx::check(size == RANKS && rank == r, "rank and world size");
    gatherEvents(size, rank, ev[r]);
  });
  sx::check(ev[0].size() == NP, "one entry per scan position");
  for (int p = 0; p < NP && p < (int)ev[0].size(); ++p) {
    sx::check(ev[0][p].size() == all[p].size(), "as many frames at a position as the ranks counted");
    for (auto &w : all[p]) {
      int n = 0;
      for (auto &g : ev[0][p])
        if (g.size() == w.size() && g[0] == w[0]) {
          ++n;
          if (w.size() == 2) sx::check(g[1] == w[1], "events of the frame");
        }
      sx::check(n == 1, "every rank's frames once");
    }
  }
  sx::reach("done");
}
#elif MODE == 1
// sample blocks: NB[r] blocks of rank r
extern "C" void sx_main()
{
  static const int nb[RANKS] = NBS;
  std::vector<Block> own[RANKS], keep[RANKS];
  for (int r = 0; r < RANKS; ++r)
    for (int k = 0; k < nb[r]; ++k) {
      uint32_t w = 2 + (r + k) % 2, h = 1 + r % 2, n = 1 + k % 2;
      std::vector<uint32_t> nums;
      for (uint32_t i = 0; i < n; ++i) nums.push_back(sx::any<uint32_t>("number"));
      Block b = hb::make(w, h, sx::any<uint32_t>("sw"), sx::any<uint32_t>("sh"), nums);
      b.header.frameNumber = r * 10 + k;
      sx::fill(b.data.get(), w * h * n, "px");
      own[r].push_back(b);
    }
  for (int r = 0; r < RANKS; ++r) for (auto &b : own[r]) keep[r].push_back(b);
  deterministic();
  mpisim::run(RANKS, [&](int r) { gatherBlocks(RANKS, r, own[r]); });
  size_t total = 0;
  for (int r = 0; r < RANKS; ++r) {
    total += nb[r];
    if (r) sx::check(own[r].size() == (size_t)nb[r], "the other ranks keep their blocks");
    for (int k = 0; k < nb[r]; ++k) {
      int n = 0;
      for (auto &b : own[0])
        if (b.header.frameNumber == (uint32_t)(r * 10 + k)) {
          ++n;
          auto &w = keep[r][k];
          bool ok = b.header.frameDimensions == w.header.frameDimensions && b.header.scanDimensions == w.header.scanDimensions && b.header.imagesInBlock == w.header.imagesInBlock && b.header.imageNumbers == w.header.imageNumbers;
          sx::check(ok, "header of a gathered block");
          if (!ok) return;
          sx_assert_mem_raw(b.data.get(), w.data.get(), 2 * w.header.frameDimensions.first * w.header.frameDimensions.second * w.header.imagesInBlock, "pixels of a gathered block");
        }
      sx::check(n == 1, "every block once");
    }
  }
  sx::check(own[0].size() == total, "all blocks on rank 0");
  for (int k = 0; k < nb[0] && k < (int)own[0].size(); ++k) sx::check(own[0][k].header.frameNumber == (uint32_t)k, "rank 0 has its own blocks first");
  sx::reach("done");
}
#else
// thresholds and the number of sample blocks per rank
extern "C" void sx_main()
{
  int n = sx::any<int>("blocks");
  sx::assume(n >= 0);
  uint64_t t[RANKS][3];
  sx::fill(&t[0][0], RANKS * 3, "threshold");
  double d[RANKS][3];
  memcpy(d, t, sizeof(t));
  deterministic();
  int share[RANKS];
  mpisim::run(RANKS, [&](int r) {
    share[r] = getSampleBlocksPerRank(RANKS, r, n);
    broadcastThresholds(d[r][0], d[r][1], d[r][2]);
  });
  int64_t sum = 0;
  for (int r = 0; r < RANKS; ++r) {
    sx::check(share[r] >= 0, "a share is not negative");
    sum += share[r];
    for (int k = 0; k < 3; ++k) { uint64_t b; memcpy(&b, &d[r][k], 8); sx::check(b == t[0][k], "every rank has the thresholds of rank 0"); }
  }
  sx::check(sum == n, "the ranks' sample blocks add up to the number asked for");
  sx::reach("done");
}
#endif
