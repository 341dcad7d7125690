// M01: the work of several MPI ranks (threads over the MPI model of
// shim/mpi/mpi.h).  RANKS ranks each construct a multi-pass reader on the same
// four files and read their share: together every frame exactly once.
#include "sector.h"
#include <mpi.h>
#ifdef SX_SYM
#include "sxrt.h"
#endif
using namespace stempy;
static const int pos[] = POS;
static bool have[NFR][4];
static int cnt[NFR];
static uint16_t v[NFR][4][NSP];
static uint32_t fn[NFR];
static std::vector<Block> got[RANKS];
static void same(const Block &b, int f)
{
  auto &h = b.header;
  sx::check(h.imagesInBlock == 1 && h.imageNumbers.size() == 1 && h.imageNumbers[0] == (uint32_t)pos[f] && h.frameNumber == fn[f], "position and number of the frame");
  sx::check(h.complete.size() == 1 && h.complete[0] == (cnt[f] == 4), "complete exactly if all four sectors are present");
  std::vector<uint16_t> w(FPX);
  for (int m = 0; m < 4; ++m)
    if (have[f][m]) for (int i = 0; i < NSP; ++i) w[place(m, SPARSE[i])] = v[f][m][i];
  sx_assert_mem_raw(b.data.get(), w.data(), 2 * FPX, "strips in place, missing ones zero");
}
extern "C" void sx_main()
{
  static const int mods[] = { 2, 0, 3, 1 };
  static const int miss[NFR][4] = MISS; // 1: may be missing
  uint32_t scan = sx::any<uint32_t>("scan");
  for (int f = 0; f < NFR; ++f) {
    fn[f] = sx::any<uint32_t>("frame");
    for (int g = 0; g < f; ++g) if (pos[f] == pos[g]) sx::assume(fn[f] != fn[g]);
  }
  std::vector<std::string> names;
  for (int k = 0; k < 4; ++k) {
    int m = mods[k];
    std::vector<Sector> s;
    for (int q = 0; q < NFR; ++q) {
      int f = k % 2 ? NFR - 1 - q : q;
      have[f][m] = !(miss[f][m] && sx::chooseFlag("missing"));
      if (!have[f][m]) continue;
      ++cnt[f];
      Sector x;
      x.h.scan = scan; x.h.frame = fn[f]; x.h.sw = SW; x.h.sh = SH; x.h.x = pos[f] % SW; x.h.y = pos[f] / SW;
      sx::fill(x.v, NSP, "px");
      memcpy(v[f][m], x.v, sizeof(x.v));
      s.push_back(x);
    }
    auto n = fileName(k, m);
    sxf::File file(n.c_str());
    if (s.size()) file.resize(s.size() * SEC);
    for (size_t i = 0; i < s.size(); ++i) putSector(file, i * SEC, s[i]);
    file.close();
    names.push_back(sxf::path(n.c_str()));
  }
  uint32_t most = 0;
  for (int i = 0; i < SW * SH; ++i) { uint32_t k = 0; for (int q = 0; q < NFR; ++q) k += cnt[q] && pos[q] == i; if (k > most) most = k; }
#ifdef SX_SYM
  sxrt::setPreemptions(0);
  sxrt::setFreeBlocking(false);
#endif
#ifdef BYINDEX
  int who = (int)sx::choose(0, NFR - 1, "which");
  sx::assume(cnt[who] > 0);
  uint32_t idx = 0;
  for (int q = 0; q < NFR; ++q) if (q != who && cnt[q] && pos[q] == pos[who]) idx += (bool)sx_concretize_raw(fn[q] < fn[who]);
#endif
  mpisim::run(RANKS, [&](int rank) {
    // the files are in a different order on every rank
    std::vector<std::string> mine(names.begin() + rank % 4, names.end());
    mine.insert(mine.end(), names.begin(), names.begin() + rank % 4);
    SectorStreamMultiPassThreadedReader r(mine, 1);
#ifdef COUNTFIRST
    sx::check(r.numFramesPerScan() == most, "every rank knows the frames per scan position");
#endif
#ifdef BYINDEX
    auto b = r.loadFrames(pos[who], { idx });
    sx::check(b.size() == 1, "one block per index");
    if (b.size() == 1) same(b[0], who);
#else
    auto &list = got[rank];
    auto keep = [&list](Block &b) { list.push_back(b); };
    auto done = r.readAll(keep);
    done.get();
#endif
    auto dims = r.scanDimensions();
    sx::check(dims.first == SW && dims.second == SH, "every rank knows the scan dimensions");
    sx::check(r.numFramesPerScan() == most, "every rank knows the frames per scan position");
  });
#ifndef BYINDEX
  int seen[NFR] = { 0 };
  int whose[SW * SH];
  for (auto &w : whose) w = -1;
  for (int rank = 0; rank < RANKS; ++rank)
    for (auto &b : got[rank]) {
      uint32_t p = b.header.imageNumbers.at(0);
      sx::check(p < SW * SH && (whose[p] == -1 || whose[p] == rank), "a scan position belongs to one rank");
      if (p >= SW * SH) return;
      whose[p] = rank;
      int f = -1;
      for (int q = 0; q < NFR; ++q) if (cnt[q] && pos[q] == (int)p && b.header.frameNumber == fn[q]) f = q;
      sx::check(f >= 0, "a frame of the files");
      if (f < 0) return;
      same(b, f);
      ++seen[f];
    }
  for (int f = 0; f < NFR; ++f) sx::check(seen[f] == (cnt[f] > 0), "every frame is read by exactly one rank");
#endif
  sx::reach("done");
}
