// R06: multi-pass reader.  Any subset of the sectors of NFR frames at positions
// POS[] with arbitrary frame numbers, spread over four files (and shuffled).
#include "sector.h"
#ifdef SX_SYM
#include "sxrt.h"
#endif
#include <mutex>
using namespace stempy;
struct Collect
{
  std::mutex m;
  std::vector<Block> got;
  void operator()(Block &b) { std::unique_lock<std::mutex> l(m); got.push_back(b); }
};
static const int pos[] = POS;
static bool have[NFR][4];
static int cnt[NFR];
static uint16_t v[NFR][4][NSP];
static uint32_t fn[NFR];
static uint32_t scanNo[1];
static void same(const Block &b, int f)
{
  auto &h = b.header;
  sx::check(h.imagesInBlock == 1 && h.imageNumbers.size() == 1 && h.imageNumbers[0] == (uint32_t)pos[f], "position of the frame");
  sx::check(h.frameNumber == fn[f], "frame number of the frame");
  sx::check(h.version == 5 && h.scanNumber == scanNo[0] && h.scanDimensions.first == SW && h.scanDimensions.second == SH && h.frameDimensions.first == 576 && h.frameDimensions.second == 576, "version, scan number and dimensions");
  sx::check(h.complete.size() == 1 && h.complete[0] == (cnt[f] == 4), "complete exactly if all four sectors are present");
  std::vector<uint16_t> w(FPX);
  for (int m = 0; m < 4; ++m)
    if (have[f][m]) for (int i = 0; i < NSP; ++i) w[place(m, SPARSE[i])] = v[f][m][i];
  sx_assert_mem_raw(b.data.get(), w.data(), 2 * FPX, "strips in place, missing ones zero");
}
extern "C" void sx_main()
{
  static const int mods[] = MODS;
  static const int miss[NFR][4] = MISS; // 1: may be missing
  scanNo[0] = sx::any<uint32_t>("scan");
  for (int f = 0; f < NFR; ++f) {
    fn[f] = sx::any<uint32_t>("frame");
    for (int g = 0; g < f; ++g) if (pos[f] == pos[g]) sx::assume(fn[f] != fn[g]);
  }
  std::vector<std::string> names;
  size_t first = 0;
  for (int k = 0; k < 4; ++k) {
    int m = mods[k];
    std::vector<Sector> s;
    for (int q = 0; q < NFR; ++q) {
      int f = k % 2 ? NFR - 1 - q : q;
      have[f][m] = !(miss[f][m] && sx::chooseFlag("missing"));
      if (!have[f][m]) continue;
      ++cnt[f];
      Sector x;
      x.h.scan = scanNo[0]; x.h.frame = fn[f]; x.h.sw = SW; x.h.sh = SH; x.h.x = pos[f] % SW; x.h.y = pos[f] / SW;
      sx::fill(x.v, NSP, "px");
      memcpy(v[f][m], x.v, sizeof(x.v));
      s.push_back(x);
    }
    if (k == 0) first = s.size();
    auto n = fileName(k, m);
    sxf::File file(n.c_str());
    if (s.size()) file.resize(s.size() * SEC);
    for (size_t i = 0; i < s.size(); ++i) putSector(file, i * SEC, s[i]);
    file.close();
    names.push_back(sxf::path(n.c_str()));
  }
  sx::assume(first > 0); // the scan dimensions come from the first file
  SectorStreamMultiPassThreadedReader r(names, NT);
  // expected order: by position, then by frame number
  int ord[NFR], n = 0;
  for (int f = 0; f < NFR; ++f) if (cnt[f]) ord[n++] = f;
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j) {
      bool sw = pos[ord[j]] < pos[ord[i]] || (pos[ord[j]] == pos[ord[i]] && (bool)sx_concretize_raw(fn[ord[j]] < fn[ord[i]]));
      if (sw) { int t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
    }
#ifdef SX_SYM
  sxrt::setPreemptions(PRE);
#endif
  auto dims = r.scanDimensions();
  sx::check(dims.first == SW && dims.second == SH, "scan dimensions of the header");
#ifdef BYINDEX
  uint32_t p = sx::any<uint32_t>("pos"), idx = sx::any<uint32_t>("index");
  sx::assume(p <= SW * SH + 1 || p >= 0xfffffffe);
  p = (uint32_t)sx_concretize_raw(p);
  std::vector<uint32_t> at;
  for (int i = 0; i < n; ++i) if (pos[ord[i]] == (int)p) at.push_back(ord[i]);
  sx::assume(idx <= at.size() + 1 || idx >= 0xfffffffe);
  idx = (uint32_t)sx_concretize_raw(idx);
  std::vector<uint32_t> want{ idx };
#if BYINDEX > 1
  uint32_t idx2 = (uint32_t)sx::choose(0, 1, "index2");
  want.push_back(idx2);
#endif
  bool err = false, ok = p < SW * SH;
  for (auto w : want) ok = ok && w < at.size();
  std::vector<Block> b;
  try {
    b = r.loadFrames(p, want);
  } catch (const std::invalid_argument &) {
    err = true;
  }
  sx::check(err == !ok, "an out-of-range position or frame index is an invalid_argument error");
  if (!err) {
    sx::check(b.size() == want.size(), "one block per index");
    for (size_t i = 0; i < b.size() && i < want.size(); ++i) same(b[i], at[want[i]]);
    sx::reach("loaded");
  } else
    sx::reach("range");
#else
  Collect c;
  auto done = r.readAll(c);
  done.get();
  sx::check((int)c.got.size() == n, "every frame once");
  for (int i = 0; i < n && i < (int)c.got.size(); ++i) {
#if NT == 1
    same(c.got[i], ord[i]);
#else
    int f = -1;
    for (int q = 0; q < n; ++q) if (c.got[i].header.imageNumbers.at(0) == (uint32_t)pos[ord[q]] && c.got[i].header.frameNumber == fn[ord[q]]) f = ord[q];
    sx::check(f >= 0, "a frame of the files");
    if (f < 0) return;
    same(c.got[i], f);
    for (int q = 0; q < i; ++q)
      sx::check(!(c.got[q].header.imageNumbers[0] == c.got[i].header.imageNumbers[0] && c.got[q].header.frameNumber >= c.got[i].header.frameNumber), "frames of one position once, in ascending order");
#endif
  }
#endif
  uint32_t most = 0;
  for (int i = 0; i < SW * SH; ++i) { uint32_t k = 0; for (int q = 0; q < n; ++q) k += pos[ord[q]] == i; if (k > most) most = k; }
  sx::check(r.numFramesPerScan() == most, "frames per scan position: the maximum over all positions");
  sx::reach("done");
}
