// R05: any subset of the four sectors of NP positions, spread over NFILES files.
#include "sector.h"
using namespace stempy;
extern "C" void sx_main()
{
  Head h[NP];
  std::vector<Sector> files[4];
  bool have[NP][4];
  int count[NP] = {};
  uint16_t sw = sx::any<uint16_t>("sw"), sh = sx::any<uint16_t>("sh");
  for (int p = 0; p < NP; ++p) {
    h[p].scan = 7; h[p].frame = sx::any<uint32_t>("frame");
    h[p].sw = sw; h[p].sh = sh;
    h[p].x = sx::any<uint16_t>("x");
    h[p].y = (uint16_t)sx::range(0, 3, "y");
    for (int q = 0; q < p; ++q) sx::assume(posOf(h[p]) != posOf(h[q]));
  }
  uint16_t v[NP][4][NSP];
  static const int order[4][NP] = ORDERS; // position order in each module's file
  for (int m = 0; m < 4; ++m)
    for (int q = 0; q < NP; ++q) {
      int p = order[m][q];
      static const int fixed[4] = FIXED; // modules that are always there
      have[p][m] = fixed[m] || sx::chooseFlag("have");
      if (!have[p][m]) continue;
      ++count[p];
      Sector s;
      s.h = h[p]; s.module = m;
      sx::fill(s.v, NSP, "px");
      memcpy(v[p][m], s.v, sizeof(s.v));
      files[m].push_back(s);
    }
  std::vector<std::string> names;
  for (int m = 0; m < 4; ++m) {
    auto n = fileName(m, m);
    sxf::File f(n.c_str());
    if (files[m].size()) f.resize(files[m].size() * SEC);
    for (size_t i = 0; i < files[m].size(); ++i) putSector(f, i * SEC, files[m][i]);
    f.close();
    names.push_back(sxf::path(n.c_str()));
  }
  SectorStreamReader r(names, VER);
#ifdef RESET
  for (int k = 0; k < RESET; ++k) {
    int skip = (int)sx::choose(0, NP + 1, "reads");
    for (int i = 0; i < skip; ++i) r.read();
    r.reset();
  }
#endif
  int total = 0, complete = 0;
  for (int p = 0; p < NP; ++p) { total += count[p] > 0; complete += count[p] == 4; }
  bool seen[NP] = {};
  uint32_t last = 0;
  std::vector<Block> keep;
  for (int q = 0; q < total; ++q) {
    Block b = r.read();
    sx::check((bool)b.data && b.header.imageNumbers.size() == 1, "every scan position present is delivered");
    if (!b.data) return;
    uint32_t pos = b.header.imageNumbers[0];
    int f = -1;
    for (int p = 0; p < NP; ++p) if (pos == posOf(h[p])) { f = p; break; }
    sx::check(f >= 0 && count[f] && !seen[f], "each position once");
    if (f < 0) return;
    seen[f] = true;
    sx::check((count[f] == 4) == (q < complete), "complete frames first, then the incomplete ones");
    if (q > complete) sx::check(pos > last, "incomplete frames in ascending order of position");
    last = pos;
    sx::check(b.header.scanDimensions.first == sw && b.header.scanDimensions.second == sh && b.header.frameDimensions.first == 576 && b.header.frameDimensions.second == 576, "dimensions");
    keep.push_back(b);
  }
  for (auto &b : keep) { // looked at only now: later frames must not have changed earlier ones
    int f = 0;
    for (int p = 0; p < NP; ++p) if (b.header.imageNumbers[0] == posOf(h[p])) { f = p; break; }
    std::vector<uint16_t> want(FPX);
    for (int m = 0; m < 4; ++m)
      if (have[f][m])
        for (int i = 0; i < NSP; ++i) want[place(m, SPARSE[i])] = v[f][m][i];
    sx_assert_mem_raw(b.data.get(), want.data(), 2 * FPX, "the strips that are there, zero elsewhere");
  }
  for (int k = 0; k < 2; ++k) sx::check(!r.read().data, "then empty blocks");
  sx::out("total", total);
  sx::reach("done");
}
