// R07: threaded sector reader.  NF frames (one may lack a sector) in four files,
// NT workers, every schedule within the preemption budget, race detection on.
#include "sector.h"
#ifdef SX_SYM
#include "sxrt.h"
#endif
#include <mutex>
using namespace stempy;
struct Collect
{
  std::mutex m;
  std::vector<Block> got;
  std::vector<std::vector<uint16_t>> now; // pixels at the time of the call
  void operator()(Block &b)
  {
    std::vector<uint16_t> px;
    for (int k = 0; k < 4; ++k) for (int i = 0; i < NSP; ++i) px.push_back(b.data.get()[place(k, SPARSE[i])]);
    std::unique_lock<std::mutex> l(m);
    got.push_back(b);
    now.push_back(px);
  }
};
extern "C" void sx_main()
{
  Head h[NF];
  static const int missing[] = MISSING; // module missing from frame f, or -1
  static const int mods[] = MODS;       // module of each file
  uint16_t v[NF][4][NSP];
  uint16_t sw = sx::any<uint16_t>("sw"), sh = sx::any<uint16_t>("sh");
  for (int f = 0; f < NF; ++f) {
    h[f].scan = sx::any<uint32_t>("scan");
    h[f].frame = BASE + f;
    h[f].sw = sw; h[f].sh = sh;
    h[f].x = sx::any<uint16_t>("x");
    h[f].y = sx::any<uint16_t>("y");
  }
  std::vector<std::string> names;
  for (int k = 0; k < 4; ++k) {
    int m = mods[k];
    auto n = fileName(k, m);
    sxf::File file(n.c_str());
    size_t cnt = 0;
    for (int f = 0; f < NF; ++f) cnt += missing[f] != m;
    if (cnt) file.resize(cnt * SEC);
    size_t i = 0;
    for (int q = 0; q < NF; ++q) {
      // 1: every second file backwards; 3: all but the first, so that the last frame is complete first
      int f = (REV == 1 && k % 2) || (REV == 3 && k) ? NF - 1 - q : q;
      if (missing[f] == m) continue;
      Sector s;
      s.h = h[f];
      sx::fill(s.v, NSP, "px");
      memcpy(v[f][m], s.v, sizeof(s.v));
      putSector(file, i++ * SEC, s);
    }
    file.close();
    names.push_back(sxf::path(n.c_str()));
  }
  Collect c;
  {
    SectorStreamThreadedReader r(names, VER, NT);
#ifdef SX_SYM
    sxrt::setPreemptions(PRE);
#endif
    auto done = r.readAll(c);
    done.get();
  }
  int want = 0;
  for (int f = 0; f < NF; ++f) want += missing[f] < 0;
  sx::check((int)c.got.size() == want, "every complete frame is delivered, once");
  bool seen[NF] = {};
  for (size_t g = 0; g < c.got.size(); ++g) {
    auto &b = c.got[g];
    uint32_t f = b.header.frameNumber - BASE;
    sx::check(f < NF && !seen[f] && missing[f] < 0, "each complete frame once");
    if (f >= NF) return;
    seen[f] = true;
    auto &bh = b.header;
    sx::check(bh.imagesInBlock == 1 && bh.imageNumbers.size() == 1 && bh.imageNumbers[0] == posOf(h[f]), "position of the frame");
    sx::check(bh.scanNumber == h[f].scan && bh.version == VER, "scan number and version");
    sx::check(bh.scanDimensions.first == sw && bh.scanDimensions.second == sh && bh.frameDimensions.first == 576 && bh.frameDimensions.second == 576, "dimensions");
    sx::check(bh.complete.size() == 1 && bh.complete[0], "the frame is marked complete");
    std::vector<uint16_t> w(FPX);
    for (int m = 0; m < 4; ++m)
      for (int i = 0; i < NSP; ++i) w[place(m, SPARSE[i])] = v[f][m][i];
    std::vector<uint16_t> then;
    for (int m = 0; m < 4; ++m) for (int i = 0; i < NSP; ++i) then.push_back(v[f][m][i]);
    sx_assert_mem_raw(c.now[g].data(), then.data(), 2 * then.size(), "the strips are there when the frame is delivered");
    sx_assert_mem_raw(b.data.get(), w.data(), 2 * FPX, "all four strips in place");
  }
  sx::reach("done");
}
